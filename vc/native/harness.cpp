// Replay harness: runs one routine of the simulator from a given state.  See replay.py for the protocol.
#include "std.h"
#include <csignal>
#include <sys/resource.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
#include "machine.h"
#include "processor.h"
#include "virtual_stack.h"
#include "x1_arch.h"
#include "encoding.h"

static long double ldarg(const std::string &h)
{
    // 20 hexadecimal digits, most significant first
    unsigned char b[16] = {};
    for (int i = 0; i < 10; i++)
        b[9 - i] = std::stoul(h.substr(2 * i, 2), nullptr, 16);
    long double x;
    std::memcpy(&x, b, 10);
    std::memset((char *)&x + 10, 0, 6);
    return x;
}

static std::string ldhex(long double x)
{
    unsigned char b[16];
    std::memcpy(b, &x, 10);
    char s[24];
    for (int i = 0; i < 10; i++)
        std::snprintf(s + 2 * i, 3, "%02x", b[9 - i]);
    return s;
}

static std::string hexs(const std::string &s)
{
    std::string r = "-";
    char b[4];
    for (unsigned char c : s) {
        std::snprintf(b, 4, "%02x", c);
        r += b;
    }
    return r;
}

static std::string unhex(const std::string &h)
{
    std::string r;
    for (size_t i = 1; i + 1 < h.size(); i += 2)
        r += (char)std::stoul(h.substr(i, 2), nullptr, 16);
    return r;
}

struct Case {
    std::vector<std::string> call;
    std::map<std::string, unsigned long> reg;
    std::map<unsigned, unsigned> display, mem, eis;
    std::map<unsigned, std::pair<unsigned, unsigned long>> cells;
    unsigned n = 0, deft = 0, defm = 0, defe = 0, defd = 0;
    bool alleis = false;
    unsigned long defv = 0;
    std::string in;
};

static void execute(const Case &c, std::ostream &out)
{
    std::istringstream in(c.in);
    std::ostringstream text;
    std::cin.rdbuf(in.rdbuf());
    std::cin.clear();
    std::cout.rdbuf(text.rdbuf());
    Machine::is_interactive = false;
    auto *mp = new Machine();
    Machine &m = *mp;
    Processor &p = m.cpu;
    auto reg = [&](const char *k) { auto i = c.reg.find(k); return i == c.reg.end() ? 0ul : i->second; };
    p.OT = reg("OT"); p.OR = reg("OR"); p.core.A = reg("A"); p.core.S = reg("S"); p.core.B = reg("B");
    p.core.C = reg("C"); p.core.L = reg("L"); p.frame_ptr = reg("fp"); p.last_frame_ptr = reg("lfp");
    p.stack_base = reg("sb"); m.random_seed = reg("seed"); m.random_output = reg("rout");
    m.console_switches = reg("sw"); m.switches_are_valid = reg("swv");
    for (unsigned i = 0; i < 32; i++)
        p.display[i] = c.defd;
    for (auto &x : c.display)
        if (x.first < 32)
            p.display[x.first] = x.second;
    if (c.defm)
        for (auto &w : m.memory)
            w = c.defm;
    for (auto &x : c.mem)
        m.memory[x.first & 077777] = x.second;
    auto &st = p.stack.storage;
    Stack_Cell d{};
    d.type = (Cell_Type)c.deft;
    d.value = c.defv;
    st.assign(c.n, d);
    for (auto &x : c.cells)
        if (x.first < c.n) {
            st[x.first].type = (Cell_Type)x.second.first;
            st[x.first].value = x.second.second;
        }
    if (c.alleis)
        for (unsigned i = 0; i <= c.n + 64; i++)
            p.eis_operation[i] = (Formal_Op)c.defe;
    for (auto &x : c.eis)
        p.eis_operation[x.first] = (Formal_Op)x.second;
    auto st0 = st;
    auto mem0 = m.memory;
    auto eis0 = p.eis_operation;
    unsigned display0[32];
    std::memcpy(display0, p.display, sizeof display0);

    std::string result;
    auto const &a = c.call;
    auto num = [&](int i) { return std::stoul(a.at(i)); };
    auto cell = [&](const Stack_Cell &x) { return std::to_string((unsigned)x.type) + " " + std::to_string(x.value); };
    auto U = [](unsigned long x) { return std::to_string(x); };
    try {
        const std::string &k = a.at(0);
        if (k == "call_opc") result = U(p.call_opc(num(1)));
        else if (k == "step") result = U(p.step());
        else if (k == "integer_to_x1") result = U(integer_to_x1((int)num(1)));
        else if (k == "x1_to_integer") result = U((unsigned)x1_to_integer(num(1)));
        else if (k == "x1_to_ieee") result = ldhex(x1_to_ieee(num(1)));
        else if (k == "ieee_to_x1") result = U(ieee_to_x1(ldarg(a.at(1))));
        else if (k == "x1_words_to_real") result = U(x1_words_to_real(num(1), num(2)));
        else if (k == "x1_negate_int") result = U(x1_negate_int(num(1)));
        else if (k == "x1_negate_real") result = U(x1_negate_real(num(1)));
        else if (k == "x1_abs_int") result = U(x1_abs_int(num(1)));
        else if (k == "x1_abs_real") result = U(x1_abs_real(num(1)));
        else if (k == "mem_load") result = U(m.mem_load(num(1)));
        else if (k == "mem_store") m.mem_store(num(1), num(2));
        else if (k == "fixt") m.print_fixed_point(std::cout, (int)num(1), (int)num(2), ldarg(a.at(3)), num(4));
        else if (k == "flot") m.print_floating_point(std::cout, (int)num(1), (int)num(2), ldarg(a.at(3)));
        else if (k == "print") m.print_int_or_real(std::cout, ldarg(a.at(1)));
        else if (k == "print_int") x1_print_integer(std::cout, num(1));
        else if (k == "print_real") x1_print_real(std::cout, num(1));
        else if (k == "algol_putc") algol_putc((int)num(1), std::cout);
        else if (k == "input_char") result = U((unsigned)m.input_char(std::cin)) ;
        else if (k == "input_real") result = ldhex(m.input_real(std::cin));
        else if (k == "switches") result = U(m.read_console_switches(std::cin, num(1)));
        else if (k == "print_string") m.print_string(std::cout, num(1));
        else if (k == "load") m.load_object_program(unhex(a.at(1)));
        else if (k == "pop") result = cell(p.stack.pop());
        else if (k == "get") result = cell(p.stack.get(num(1)));
        else if (k == "set") { Stack_Cell x{}; x.type = (Cell_Type)num(2); x.value = num(3); p.stack.set(num(1), x); }
        else if (k == "erase") p.stack.erase(num(1));
        else { out << "E unknown call\n"; return; }
        out << "R ret " << (result.empty() ? "-" : result) << "\n";
    } catch (std::exception &e) {
        out << "R throw " << hexs(e.what()) << "\n";
    } catch (...) {
        out << "R other\n";
    }
    out << "S OT " << p.OT << " OR " << p.OR << " A " << p.core.A << " S " << p.core.S << " B " << p.core.B << " C " << p.core.C
        << " L " << p.core.L << " fp " << p.frame_ptr << " lfp " << p.last_frame_ptr << " sb " << p.stack_base << " n "
        << st.size() << " seed " << m.random_seed << " rout " << m.random_output << " sw " << m.console_switches << " swv "
        << m.switches_are_valid << "\n";
    out << "O " << hexs(text.str()) << "\n";
    out << "P " << (in.eof() ? (long)c.in.size() : (long)in.tellg()) << "\n";
    for (unsigned i = 0; i < 32; i++)
        if (p.display[i] != display0[i])
            out << "D " << i << " " << p.display[i] << "\n";
    for (size_t i = 0; i < st.size(); i++)
        if (i >= st0.size() || st[i].type != st0[i].type || st[i].value != st0[i].value)
            out << "K " << i << " " << (unsigned)st[i].type << " " << st[i].value << "\n";
    for (size_t i = 0; i < 32768; i++)
        if (m.memory[i] != mem0[i])
            out << "M " << i << " " << m.memory[i] << "\n";
    for (auto &x : p.eis_operation)
        if (!eis0.count(x.first) || eis0[x.first] != x.second)
            out << "E " << x.first << " " << (unsigned)x.second << "\n";
    for (auto &x : m.symbol_table)
        out << "Y " << hexs(x.first) << " " << x.second << "\n";
    for (size_t i = 0; i < m.entry_table.size(); i++)
        out << "Z " << i << " " << m.entry_table[i] << "\n";
}

int main()
{
    std::string line;
    Case c;
    FILE *o = fdopen(dup(1), "w");
    while (std::getline(std::cin, line)) {
        std::istringstream s(line);
        std::string k;
        s >> k;
        unsigned i = 0;
        unsigned long v = 0, w = 0;
        if (k == "call") {
            c = Case();
            for (std::string t; s >> t;)
                c.call.push_back(t);
        } else if (k == "S") {
            std::string r;
            while (s >> r >> v)
                c.reg[r] = v;
        } else if (k == "N") {
            s >> c.n >> c.deft >> c.defv;
        } else if (k == "DM") {
            s >> c.defm;
        } else if (k == "DD") {
            s >> c.defd;
        } else if (k == "DE") {
            s >> c.defe;
            c.alleis = true;
        } else if (k == "D") { s >> i >> v; c.display[i] = v; }
        else if (k == "M") { s >> i >> v; c.mem[i] = v; }
        else if (k == "E") { s >> i >> v; c.eis[i] = v; }
        else if (k == "K") { s >> i >> v >> w; c.cells[i] = { (unsigned)v, w }; }
        else if (k == "I") { std::string h; s >> h; c.in = unhex(h); }
        else if (k == "run") {
            int fd[2];
            if (pipe(fd)) return 1;
            pid_t pid = fork();
            if (pid == 0) {
                close(fd[0]);
                rlimit r{ 5, 5 };
                setrlimit(RLIMIT_CPU, &r);
                rlimit r0{ 0, 0 };
                setrlimit(RLIMIT_CORE, &r0);
                std::ostringstream out;
                int null = open("/dev/null", 1);
                if (!std::getenv("VC_STDERR"))
                    dup2(null, 2);
                dup2(null, 1);
                execute(c, out);
                std::string t = out.str();
                for (size_t p = 0; p < t.size();) {
                    ssize_t q = write(fd[1], t.data() + p, t.size() - p);
                    if (q <= 0)
                        break;
                    p += q;
                }
                close(fd[1]);
                _exit(0);
            }
            close(fd[1]);
            std::string t;
            char buf[65536];
            ssize_t q;
            while ((q = read(fd[0], buf, sizeof buf)) > 0)
                t.append(buf, q);
            close(fd[0]);
            int st;
            waitpid(pid, &st, 0);
            if (WIFSIGNALED(st))
                t = (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL) ? "R hang\n" : "R crash " + std::to_string(WTERMSIG(st)) + "\n";
            else if (WEXITSTATUS(st) != 0)
                t = "R crash exit" + std::to_string(WEXITSTATUS(st)) + "\n";
            std::fputs(t.c_str(), o);
            std::fputs("end\n", o);
            std::fflush(o);
        }
    }
}
