"""Source of properties.jsonl and MANIFEST.json (run by hand: python3 properties.py)."""
import json, os

def P(id, title, statement, over, text, tests, files, mech, claim=True, level='proof', note='', tech=None, state=(), observe=()):
    return dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=tests,
                anchors={'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                         'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state], 'observe_at': list(observe)},
                _claim=claim, _note=note, _level=level, _tech=tech)

TECH = 'contract-based deductive verification: VC generation from the LLVM IR of the current sources, function by function, z3 discharges'
ARCH, OPC, PROC, STACK, MACH, INP, ENC = ('simulator/x1_arch.cpp', 'simulator/opcodes.cpp', 'simulator/processor.cpp', 'simulator/virtual_stack.cpp',
                                          'simulator/machine.cpp', 'simulator/input.cpp', 'simulator/encoding.cpp')
PROPS = [
P('C01', 'X1 integers: conversion, sign and rounding are exact', 'Every integer from -(2**26-1) to 2**26-1 has exactly the ones\' complement word it should, converting there and back is the identity, and a number outside the range is reported as an error and never stored truncated. Negation, absolute value, sign and entier of any integer or real operand give the mathematically right number, and minus zero counts as zero.',
  ['inputs'], 'all 2**27 words, all 2**32 host integers, all operand cells', 'The tests convert a dozen integers; a wrong word for some magnitude, or silent truncation near the limits, shows only there.',
  [ARCH, OPC], [('integer_to_x1, x1_to_integer', ARCH), ('NEG, abs, sign, entier', OPC)],
  note='Every obligation of the conversion functions and of NEG, abs, sign, entier is discharged for all inputs; two lemmas give the round trip.'),
P('C02', 'X1 reals: every 54-bit real converts exactly, back with half-up rounding', 'Every X1 real denotes one number and converts to the host format exactly; converting a host number gives the nearest X1 real (halves away from zero), zero for magnitudes below the smallest one and an error above the largest. Normalised reals survive the round trip unchanged, and changing the sign or taking the absolute value is exact.',
  ['inputs'], 'all 2**54 X1 reals, all 80-bit host numbers with their infinities and NaNs', 'The tests convert about twenty values; exponent boundaries, carries out of the mantissa and non-finite numbers are beyond them.',
  [ARCH], [('x1_to_ieee, ieee_to_x1', ARCH)],
  note='Bit-exact proof over the 80-bit format; ldexp and frexp are modelled exactly.'),
P('C03', 'Arithmetic: right result and type, or an error', 'Addition, subtraction, multiplication and division of any two numbers, from the stack, from variables or through parameters, give the sum, difference, product or quotient with the type Algol 60 prescribes. An integer result that does not fit becomes a real result or an error as documented, never a wrong integer; division by zero and wrong operand types are reported.',
  ['inputs', 'programs'], 'all operand values and types, all machine states and operand addressing forms', 'A test executes one pair of operands per operation; overflow to real and mixed types depend on the values.',
  [OPC, STACK, PROC], [('ADRD ... DIF, ADD, SUB, MUL, DIV, IDI', OPC), ('binary operations on cells', STACK), ('take_formal', PROC)],
  note='Host floating point +,-,*,/ are uninterpreted but the same in code and contract; integer arithmetic is exact.'),
P('C04', 'Exponentiation follows the Algol report for every base and exponent', 'The power operator gives the exact integer power when both operands are integers and the result fits, an error when it does not fit, and otherwise the real power the Algol 60 report defines, including zero, negative and real exponents and the undefined cases. It always terminates.',
  ['inputs'], 'all bases and exponents', 'The tests try a handful of small powers; overflow within the repeated multiplication needs particular bases and exponents.',
  [OPC, STACK], [('TTP', OPC), ('power', STACK)],
  note='Integer powers: all bases and all exponents proved by case split on the base; real powers: equal to the repeated long double product.'),
P('C05', 'Comparisons and Boolean operations', 'The six relations order any two numbers correctly, whatever mixture of integer and real they are and with minus zero equal to zero, and leave exactly the Boolean values true or false. The Boolean operators implement their truth tables and conditional jumps see the value computed; operands of a wrong type are reported.',
  ['inputs'], 'all operand values and types', 'Tests compare a few pairs; minus zero, mixed types and extreme values are not among them.',
  [OPC, STACK], [('MOR LST EQU MST LES UQU NON AND OR IMP QVL CAC', OPC)], note='All operand values, all machine states.'),
P('C06', 'Loads and assignments move exactly the right value to the right place', 'Fetching a variable gives the value last stored at its static or dynamic address; an assignment converts to the type of the destination (rounding halves up) and changes that variable only. Multiple assignment stores the same value everywhere, and an unsuitable destination or a missing value is an error.',
  ['inputs', 'programs'], 'all addresses, types, display contents and stacks', 'Tests use small programs with few variables, so a store that also disturbs a neighbour, or goes wrong at another block level, is not seen.',
  [OPC, PROC, STACK], [('TRAD..TIRS, ST, STA, STP, STAP, SSI', OPC), ('address_in_stack, store_value, load_value', PROC)],
  note='The frame condition (nothing else changes) is part of every contract.'),
P('C07', 'The run-time stack is last-in first-out and bounded', 'Whatever is pushed is what a later pop or read returns, reads and writes reach only existing cells, and every access outside the stack and every growth beyond its limit is a reported error. Procedure frames and array storage are allocated and removed exactly.',
  ['inputs', 'histories'], 'all stack contents and sizes, all operations on it', 'The tests never fill the stack and cannot cover all depths.',
  [STACK, 'simulator/virtual_stack.h', PROC], [('Virtual_Stack', 'simulator/virtual_stack.h'), ('frame_create, frame_release, allocate_stack', PROC)],
  note='Each stack operation against the abstract sequence.'),
P('C08', 'Procedure call and return restore the caller exactly', 'Entering a procedure or block saves the caller\'s frame, return address, block level and working stack, and leaving it, normally or from an implicit subroutine, restores them exactly with the result, if any, as the only addition. The display always describes the static chain of the current block.',
  ['histories', 'programs'], 'all call depths, block levels up to 31, numbers of parameters, stacks', 'The tests nest a few calls; errors in restoring a display level or the working stack need particular nestings.',
  [PROC, OPC], [('frame_create, frame_release, update_display', PROC), ('ETMR ETMP FTMR FTMP RET EIS SCC', OPC)],
  note='Frame construction for any number of arguments by loop invariant.'),
P('C09', 'Parameters: by name, by value, as label, string or procedure', 'Using a formal parameter evaluates the actual one in the environment of the call, every time it is used, whatever kind the actual is and through any chain of formals; the value or address delivered is that of the actual. A kind of actual that the use does not permit is reported.',
  ['programs', 'histories'], 'all parameter descriptors, call environments and operations on the formal', 'The tests pass a few kinds of actuals; the combinations of kind, level and operation are far more.',
  [PROC, OPC], [('take_formal, arg_address', PROC), ('TFA TFR TFP ADF SUF MUF DIF', OPC)],
  note='Chains of formals: one link proved, the loop by invariant.'),
P('C10', 'Arrays: subscripts select the right element or are rejected', 'For every array declared, each in-range subscript tuple addresses its own element in the array\'s storage, and an index whose address falls outside the array is reported. The storage function, the storage reserved and the copy made of an array passed by value agree with the bounds and element type; impossible sizes are reported.',
  ['inputs', 'programs'], 'all bounds, subscripts (integer or real) and element types, up to the number of dimensions stated', 'Tests use one or two small arrays; overflow in the address computation, negative bounds and conversion on copying show only with particular values.',
  [OPC, PROC], [('IND, LAP, VAP', OPC), ('make_storage_function_frame, make_value_array_function_frame', PROC)],
  note='Proved for up to 3 subscripts, declarations of up to 2 arrays of up to 2 dimensions, copies of up to 2 words: these loops are unrolled (bounded).'),
P('C11', 'For statements take the right values and stop at the right time', 'Every for-list element - a value, step-until or while - assigns the controlled variable the values the Algol report prescribes in that order, including negative and real steps and loops of no iteration, and then passes to the next element. The loop\'s bookkeeping leaves the stack as it found it.',
  ['inputs', 'programs'], 'all controlled variables, steps and limits', 'Tests run a few short loops with positive steps.',
  [OPC], [('FOR0 ... FOR8', OPC)], note='Each for-operation for all stacks and operand values.'),
P('C12', 'A goto leaves exactly the blocks it jumps out of', 'A jump to a label in an enclosing block unwinds the frames of all blocks and calls left, no more and no less, and continues with the display and working stack of the label\'s block. A label whose block is not active is reported.',
  ['histories', 'programs'], 'all frame chains, levels and targets', 'The tests jump out of one or two blocks.',
  [PROC, OPC], [('roll_back', PROC), ('GTA', OPC)], note='Partial correctness: unwinding a cyclic chain (never built by calls) is not excluded.'),
P('C13', 'Each machine instruction has its documented effect and nothing else is executed', 'Every word fetched is either one of the machine instructions and operators the object code uses, with the documented effect on registers, condition, memory, stack and instruction counter, or reported as an unknown instruction or operator. Conditional variants act only under their condition.',
  ['programs', 'inputs'], 'all 2**27 instruction words in all machine states', 'Tests execute the instructions a few compiled programs contain, never the unassigned ones.',
  [PROC, OPC], [('step', PROC), ('call_opc', OPC)], note='All operation parts, with and without condition, and all unassigned ones.'),
P('C14', 'No object program can corrupt the simulator', 'Whatever words an object program consists of and whatever state the machine is in, executing the next instruction accesses no memory outside the simulator\'s own arrays, divides by no zero and reads no uninitialised value: it ends normally or with a reported error.',
  ['programs', 'inputs', 'histories'], 'all machine states and instruction words', 'Tests run well-formed programs; a bad index appears only for words no compiler would emit or for extreme run-time values.',
  [PROC, OPC, STACK, MACH, ARCH], [('bounds checks', 'simulator/virtual_stack.h'), ('address masks', MACH)],
  note='The safety obligations (bounds, null, shift, division, uninitialised reads) of every instruction and operator; bounded for the operators whose loops are unrolled.'),
P('C15', 'Memory and device addresses', 'A word stored in memory is read back unchanged until it is overwritten and no other word changes. The addresses of the devices (random numbers, console output, console input, time) perform their device\'s action and nothing else, and the character written is the one the stored code denotes.',
  ['inputs', 'histories'], 'all addresses and words', 'Tests use a few addresses and characters.',
  [MACH, INP, ENC], [('mem_load, mem_store', MACH)],
  note='Device reads are uninterpreted inputs; time of day is not specified.'),
P('C17', 'Printing operations format what they were given', 'The printing operators print exactly the arguments they were given, in order, with the layout their arguments select, and remove exactly those arguments; spaces, tabs and new lines come out in the number requested. A bad layout argument or a missing argument is reported.',
  ['inputs'], 'all argument values and layouts, up to the numbers stated', 'Tests print a few values.',
  [OPC, MACH], [('print TAB NLCR SPACE FLOT FIXT ABSFIXT', OPC)],
  note='That the operators pass the right number and layout to the formatting routines; SPACE up to 6 and print up to 2 arguments (bounded).'),
P('C18', 'Standard functions replace their argument by the function value', 'abs, sign, entier, sqrt, sin, cos, arctan, ln and exp take the number on top of the stack, integer or real, and replace it with the function value in the prescribed type. Arguments outside a function\'s domain and results out of range are reported and no other part of the machine changes.',
  ['inputs'], 'all arguments', 'Tests evaluate a few arguments of each.',
  [OPC], [('abs ... entier', OPC)], note='libm functions are uninterpreted: that the right function of the right argument is stored is proved, not the digits of libm.'),
]
NOT_CLAIMED = [
P('C90', 'A compiled program computes what the Algol 60 report prescribes', 'Every legal Algol 60 program, compiled and run, produces the output the language definition prescribes, and every illegal one is rejected.',
  ['programs'], 'all programs', 'Tests compile about a hundred programs.', ['compiler/x1algc.c'], [('translation', 'compiler/x1algc.c')], claim=False,
  note='The specification would be a formal semantics of Algol 60 and the proof a verified compiler; the translator is one unstructured 4000-line routine set over global tables with no statement-level contract. The contracts here stop at the object code.'),
P('C91', 'The Pascal and the C compiler produce the same object code', 'For every source program the two compilers in the repository produce the same object program.',
  ['programs'], 'all programs', 'Only sample programs are compared.', ['compiler/x1algol.pas', 'compiler/x1algc.c'], [('both compilers', 'compiler')], claim=False,
  note='Relational property of two whole programs, one in Pascal, for which no verifier or front end is installed.'),
P('C92', 'Printed decimal digits are correctly rounded', 'A printed real number shows the decimal digits nearest to its value for the layout requested.',
  ['inputs'], 'all reals and layouts', 'A few values are printed.', [MACH], [('print_fixed_point, print_floating_point', MACH)], claim=False,
  note='The digits come from iostream/printf formatting of long double; its decimal conversion is outside what the installed solvers can express.'),
P('C93', 'Random numbers and time', 'The random generator is uniform on (0,1) and repeatable from its seed, and the clock device returns the elapsed time.',
  ['histories'], 'all sequences', 'Statistical.', [MACH], [('GET_RANDOM', MACH)], claim=False,
  note='A statistical property of std::mt19937 and the host clock; not a contract.'),
]

if __name__ == '__main__':
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in PROPS + NOT_CLAIMED:
            assert len(p['title']) <= 80, p['title']
            assert p['statement'].count('. ') <= 2, p['id']
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}, ensure_ascii=False) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3-vt check.py --setup', 'checks': [], 'not_applicable': []}
    for p in PROPS:
        m['checks'].append({'property': p['id'], 'quick_cmd': f"python3-vt check.py {p['id']}", 'thorough_cmd': f"python3-vt check.py {p['id']} --thorough",
                            'technique': p['_tech'] or TECH, 'level': p['_level'], 'level_note': p['_note']})
    for p in NOT_CLAIMED:
        m['not_applicable'].append({'property': p['id'], 'reason': p['_note']})
    with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write('\n')
