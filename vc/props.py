"""Which proof units decide which property."""
import re
import units, lemmas
from units import UNITS

FORMALS = [r'take_formal PUSH_VALUE', r'take_formal PUSH_ADDRESS', r'take_formal PUSH_STRING', r'take_formal REMOVE_ARG']
PROPS = {
    'C01': [r'integer_to_x1', r'x1_to_integer', r'x1_negate_int', r'x1_abs_int', r'OPC (57|76|77|84) .*', r'lemma integers', r'round_to_integer'],
    'C02': [r'x1_to_ieee', r'ieee_to_x1', r'x1_words_to_real', r'x1_negate_real', r'x1_abs_real', r'lemma reals'],
    'C03': [r'OPC (36|37|38|39|41|42|43|44|46|47|48|49|51|52|53|54|59|60|61|62|63) .*', r'take_formal (ADD|SUBTRACT|MULTIPLY|DIVIDE)'],
    'C04': [r'OPC 64 .*', r'power_.*'],
    'C05': [r'OPC (30|65|66|67|68|69|70|71|72|73|74|75) .*'],
    'C06': [r'OPC (14|15|16|17|29|31|32|33|34|58|85|86|87|88) .*', r'arg_address'],
    'C07': [r'allocate_stack', r'frame_create', r'frame_release', r'Virtual_Stack.*'],
    'C08': [r'OPC (8|9|10|11|12|13|89) .*', r'frame_create', r'frame_release', r'update_display'],
    'C09': [r'OPC (18|35|40|45|50|55|98) .*', r'arg_address', r'update_display', r'frame_create', r'take_formal (ADD|SUBTRACT|MULTIPLY|DIVIDE)'] + FORMALS,
    'C10': [r'OPC (56|90|91|92|93|94|95)[ ,].*', r'allocate_stack', r'load_word', r'take_formal PUSH_ADDRESS'],
    'C11': [r'OPC (19|20|21|22|23|24|25|26|27) .*'],
    'C12': [r'OPC 28 .*', r'roll_back', r'update_display', r'frame_release'],
    'C13': [r'step .*', r'step, .*', r'OPC \d+ (unassigned.*|START|STOP)', r'update_display'],
    'C15': [r'mem_load', r'mem_store', r'load_word', r'algol_putc', r'input_char'],
}


PROPS['C17'] = [r'OPC (103|104|105|107|110|111|112) .*', r'x1_print_.*', r'print_.*', r'algol_putc', r'lemma digits']
PROPS['C18'] = [r'OPC (76|77|78|79|80|81|82|83|84) .*']
SAFETY = {'C14'}
PROPS['C14'] = [r'OPC .*', r'step.*', r'take_formal .*', r'mem_.*', r'load_word', r'update_display', r'arg_address', r'roll_back', r'frame_.*',
                r'allocate_stack', r'integer_to_x1', r'x1_to_integer', r'algol_putc', r'x1_print_.*', r'print_floating_point \d+ 3', r'print_fixed_point (3|21) .*', r'print.*, no such format', r'print_int_or_real', r'input_.*']

TRUSTED = [
    'the VC generator in vc/ (LLVM IR semantics, memory model, models of libstdc++ containers, streams and exceptions)',
    'clang 18 as the translator from the C++ text to LLVM IR (-O0, NDEBUG); the code is verified as compiled, not as parsed',
    'z3',
    'libm (sqrt, sin, cos, atan, log, exp, modf): deterministic functions, values not specified',
    'the contracts as the statement of what the machine is meant to do (vc/specs.py, vc/ops.py)',
]
ASSUMPTIONS = [
    'registers A, S and B hold 27 bits and the instruction counter 15 bits when a routine starts; memory words hold 27 bits; cell types are one of the five declared',
    'signed integer overflow wraps (as the compiler used here translates it)',
    'allocation never fails; the trace options are off; the text of error messages is not specified',
]
ASSUME = {
    'C04': ['the result of a real power is the repeated long double product (its rounding to 40 bits is not bounded)'],
    'C12': ['unwinding: partial correctness only (a cyclic frame chain would not end)'],
    'C08': ['display: levels up to 31, as compiled programs use'],
    'C09': ['chains of formal parameters passed on as formals: proved for one link, with the loop invariant for the rest'],
}


def modules_of(ks):
    import verify
    return [verify.module]


def units_of(prop):
    r = []
    for rx in PROPS[prop]:
        c = re.compile(rx)
        for k in UNITS:
            if c.fullmatch(k) and k not in r:
                r.append(k)
    return r


if __name__ == '__main__':
    used = set()
    for p in PROPS:
        print(p, len(units_of(p)))
        used |= set(units_of(p))
    print('unused', [k for k in UNITS if k not in used])
