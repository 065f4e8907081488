"""Writes fileio_sim.vhd: a command interpreter around the file-I/O packages.

N client processes share one simulated machine. Client i executes client<i>.cmd: every line holds a simulated time (ns)
at which the operation happens and the operation itself, so the command files decide the interleaving of the clients.
Every result is written with std.textio (not with the library under test) to client<i>.log and flushed.
"""
TYPES = {  # name: (type, array type, signed, has file write, has line write)
    "nbs": ("ieee.numeric_bit.signed", "SignedBitArray_t", ""),
    "nbu": ("ieee.numeric_bit.unsigned", "UnsignedBitArray_t", ""),
    "nss": ("ieee.numeric_std.signed", "SignedArray_t", ""),
    "nsu": ("ieee.numeric_std.unsigned", "UnsignedArray_t", ""),
    "slvs": ("std_logic_vector", "SlvArray_t", "Signed_s"),
    "slvu": ("std_logic_vector", "SlvArray_t", "Unsigned_s"),
    "bvs": ("bit_vector", "BitVectorArray_t", "Signed_s"),
    "bvu": ("bit_vector", "BitVectorArray_t", "Unsigned_s"),
}
SULV = {"suls": ("std_ulogic_vector", "SulvArray_t", "Signed_s"), "sulu": ("std_ulogic_vector", "SulvArray_t", "Unsigned_s")}
P = "en_tb.en_tb_fileio_text_pkg."
C = "lib.en_cl_fix_fileio_pkg."


def bits_of(ty, x):
    return f"to_string(bit_vector({x}))" if ty in ("nbs", "nbu", "bvs", "bvu") else f"to_string(std_logic_vector({x}))"


def conv(ty, s):
    t = (TYPES.get(ty) or SULV[ty])[0]
    return f"{t}(to_bv({s}))" if ty in ("nbs", "nbu", "bvs", "bvu") else f"{t}(to_slv({s}))"


def generate():
    o = []
    w = o.append
    w("""library std; use std.textio.all;
library ieee; use ieee.std_logic_1164.all;
library en_tb; use en_tb.en_tb_base_pkg.all;
library lib; use lib.en_cl_fix_pkg.all;

package crash_pkg is
    -- End the simulator process at once, without any clean-up (no buffered data reaches the disk).
    procedure crash(code : integer);
    attribute foreign of crash : procedure is "VHPIDIRECT _exit";
end package;
package body crash_pkg is
    procedure crash(code : integer) is begin report "VHPIDIRECT" severity failure; end procedure;
end package body;

library std; use std.textio.all;
library ieee; use ieee.std_logic_1164.all;
library en_tb; use en_tb.en_tb_base_pkg.all;
library lib; use lib.en_cl_fix_pkg.all;
use work.crash_pkg.all;

entity fileio_sim is
    generic (clients_g : natural := 3);
end entity;

architecture sim of fileio_sim is
    procedure token(L : inout line; t : inout line) is
        variable a, b : integer;
    begin
        a := L.all'low;
        while a <= L.all'high and L.all(a) = ' ' loop a := a + 1; end loop;
        b := a;
        while b <= L.all'high and L.all(b) /= ' ' loop b := b + 1; end loop;
        deallocate(t);
        t := new string'(L.all(a to b-1));
        L := new string'(L.all(b to L.all'high));
    end procedure;
    procedure num(L : inout line; i : out integer) is
        variable t : line;
    begin
        token(L, t);
        i := integer'value(t.all);
        deallocate(t);
    end procedure;
    -- Text argument: characters are quoted as two hexadecimal digits each; "-" is the empty string.
    procedure txt(L : inout line; t : inout line) is
        variable q : line;
        variable s : string(1 to 400);
        variable n : natural := 0;
        function hex(c : character) return natural is
        begin
            if c >= '0' and c <= '9' then return character'pos(c) - character'pos('0'); end if;
            return character'pos(c) - character'pos('a') + 10;
        end function;
    begin
        token(L, q);
        if q.all /= "-" then
            for i in 0 to q.all'length/2-1 loop
                n := n + 1;
                s(n) := character'val(hex(q.all(q.all'low+2*i))*16 + hex(q.all(q.all'low+2*i+1)));
            end loop;
        end if;
        deallocate(t);
        deallocate(q);
        t := new string'(s(1 to n));
    end procedure;
    function to_bv(s : string) return bit_vector is
        variable r : bit_vector(s'length-1 downto 0);
        alias q : string(1 to s'length) is s;
    begin
        for i in q'range loop
            if q(i) = '1' then r(s'length-i) := '1'; else r(s'length-i) := '0'; end if;
        end loop;
        return r;
    end function;
    function to_slv(s : string) return std_logic_vector is
    begin
        return to_stdlogicvector(to_bv(s));
    end function;
    -- Signed value of 32 bits or less
    function to_int(s : string) return integer is
        variable r : integer := 0;
        alias q : string(1 to s'length) is s;
    begin
        if q(1) = '1' then r := -1; end if;
        for i in 2 to q'high loop
            r := r*2;
            if q(i) = '1' then r := r + 1; end if;
        end loop;
        return r;
    end function;
    procedure result(file lg : text; op : integer; s : string) is
        variable L : line;
    begin
        std.textio.write(L, integer'image(op) & " " & s);
        writeline(lg, L);
        flush(lg);
    end procedure;
""")
    # ---- line reads/writes with explicit ranges
    for ty, (t, arr, sg) in TYPES.items():
        s = f", {sg}" if sg else ""
        w(f"""    procedure lr_{ty}(L : inout line; n, form, dflt : integer; mode : en_tb.en_tb_fileio_text_pkg.text_data_mode_t; file lg : text; op : integer) is
        variable x0 : {t}(n-1 downto 0);
        variable x1 : {t}(n+2 downto 3);
        variable x2 : {t}(0 to n-1);
    begin
        case form is
            when 1 => {P}read(L, x1{s}, mode); result(lg, op, {bits_of(ty, 'x1')});
            when 2 => {P}read(L, x2{s}, mode); result(lg, op, {bits_of(ty, 'x2')});
            when others =>
                if dflt = 1 then {P}read(L => L, x => x0{', signedness => ' + sg if sg else ''}); else {P}read(L, x0{s}, mode); end if;
                result(lg, op, {bits_of(ty, 'x0')});
        end case;
    end procedure;
    procedure lw_{ty}(L : inout line; b : string; form, dflt : integer; mode : en_tb.en_tb_fileio_text_pkg.text_data_mode_t) is
        constant x0 : {t}(b'length-1 downto 0) := {conv(ty, 'b')};
        constant x1 : {t}(b'length+2 downto 3) := x0;
        constant x2 : {t}(0 to b'length-1) := x0;
    begin
        case form is
            when 1 => {P}write(L, x1{s}, mode);
            when 2 => {P}write(L, x2{s}, mode);
            when others =>
                if dflt = 1 then {P}write(L => L, x => x0{', signedness => ' + sg if sg else ''}); else {P}write(L, x0{s}, mode); end if;
        end case;
    end procedure;
    procedure fw_{ty}(file f : text; b : string; dflt : integer; mode : en_tb.en_tb_fileio_text_pkg.text_data_mode_t) is
        constant x0 : {t}(b'length-1 downto 0) := {conv(ty, 'b')};
    begin
        if dflt = 1 then {P}write(f => f, x => x0{', signedness => ' + sg if sg else ''}); else {P}write(f, x0{s}, mode); end if;
    end procedure;
    procedure fr_{ty}(file f : text; n, form, dflt, skip, closing : integer; mode : en_tb.en_tb_fileio_text_pkg.text_data_mode_t; file lg : text; op : integer) is
        variable x0 : {t}(n-1 downto 0);
        variable x1 : {t}(n+2 downto 3);
    begin
        if form = 0 then
            if dflt = 1 then {P}read(f => f, x => x0{', signedness => ' + sg if sg else ''}); else {P}read(f, x0{s}, mode, skip, closing = 1); end if;
        elsif form = 1 then
            {P}read(f, x1{s}, mode, skip, closing = 1);
            x0 := x1;
        else
            if dflt = 1 then x0 := {P}read(f => f, n_bits => n{', signedness => ' + sg if sg else ''}); else x0 := {P}read(f => f, n_bits => n, {'signedness => ' + sg + ', ' if sg else ''}mode => mode, skip_before => skip, close_after => closing = 1); end if;
        end if;
        result(lg, op, {bits_of(ty, 'x0')});
    end procedure;
""")
    w(f"""    procedure fr_scalar(file f : text; ty : string; form, dflt, skip, closing : integer; mode : en_tb.en_tb_fileio_text_pkg.text_data_mode_t; file lg : text; op : integer) is
        variable i : integer;
        variable s : std_logic;
        variable b : bit;
    begin
        if ty = "int" then
            if dflt = 1 then
                if form = 0 then {P}read(f => f, x => i); else i := {P}read(f => f); end if;
            elsif form = 0 then {P}read(f, i, mode, skip, closing = 1);
            else i := {P}read(f => f, mode => mode, skip_before => skip, close_after => closing = 1); end if;
            result(lg, op, to_string(bit_vector(ieee.numeric_bit.to_signed(i, 32))));
        elsif ty = "sl" then
            if form = 0 then {P}read(f, s, mode, skip, closing = 1);
            else s := {P}read(f => f, signedness => Unsigned_s, n_bits => 1, mode => mode, skip_before => skip, close_after => closing = 1); end if;
            result(lg, op, std_logic'image(s)(2 to 2));
        else
            if form = 0 then {P}read(f, b, mode, skip, closing = 1);
            else b := {P}read(f => f, signedness => Unsigned_s, n_bits => 1, mode => mode, skip_before => skip, close_after => closing = 1); end if;
            result(lg, op, bit'image(b)(2 to 2));
        end if;
    end procedure;
    procedure lr_scalar(L : inout line; ty : string; dflt : integer; mode : en_tb.en_tb_fileio_text_pkg.text_data_mode_t; file lg : text; op : integer) is
        variable i : integer;
        variable s : std_logic;
        variable b : bit;
    begin
        if ty = "int" then {P}read(L, i, mode); result(lg, op, to_string(bit_vector(ieee.numeric_bit.to_signed(i, 32))));
        elsif ty = "sl" then {P}read(L, s, mode); result(lg, op, std_logic'image(s)(2 to 2));
        else {P}read(L, b, mode); result(lg, op, bit'image(b)(2 to 2));
        end if;
    end procedure;
""")
    # ---- whole files
    for ty, (t, arr, sg) in {**TYPES, **SULV}.items():
        kw = f", signedness => {sg}" if sg else ""
        w(f"""    procedure rf_{ty}(name : string; n, dflt, skip : integer; mode : en_tb.en_tb_fileio_text_pkg.text_data_mode_t; file lg : text; op : integer) is
        procedure put(x : {arr}) is
            variable L : line;
            variable k : {t}(n-1 downto 0);
        begin
            for i in x'range loop
                k := x(i);
                std.textio.write(L, " " & {bits_of(ty, 'k')});
            end loop;
            if L = null then L := new string'(""); end if;
            result(lg, op, integer'image(x'length) & L.all);
            deallocate(L);
        end procedure;
    begin
        if dflt = 1 then put({P}read_file(filename => name, n_bits => n{kw}));
        else put({P}read_file(filename => name, n_bits => n{kw}, mode => mode, skip => skip)); end if;
    end procedure;
    procedure wf_{ty}(name, header : string; C : inout line; n, count, base, dflt : integer; mode : en_tb.en_tb_fileio_text_pkg.text_data_mode_t) is
        variable x : {arr}(base to base+count-1)(n-1 downto 0);
        variable t : line;
    begin
        for i in x'range loop
            token(C, t);
            x(i) := {conv(ty, 't.all')};
        end loop;
        if dflt = 1 then {P}write_file(filename => name, data => x{kw});
        else {P}write_file(filename => name, data => x{kw}, mode => mode, header => header); end if;
    end procedure;
""")
    w(f"""    procedure rf_int(name : string; dflt, skip : integer; mode : en_tb.en_tb_fileio_text_pkg.text_data_mode_t; file lg : text; op : integer) is
        procedure put(x : integer_vector) is
            variable L : line;
        begin
            for i in x'range loop std.textio.write(L, " " & to_string(bit_vector(ieee.numeric_bit.to_signed(x(i), 32)))); end loop;
            if L = null then L := new string'(""); end if;
            result(lg, op, integer'image(x'length) & L.all);
        end procedure;
    begin
        if dflt = 1 then put({P}read_file(filename => name)); else put({P}read_file(filename => name, mode => mode, skip => skip)); end if;
    end procedure;
    procedure wf_int(name, header : string; C : inout line; count, base, dflt : integer; mode : en_tb.en_tb_fileio_text_pkg.text_data_mode_t) is
        variable x : integer_vector(base to base+count-1);
        variable t : line;
    begin
        for i in x'range loop
            token(C, t);
            x(i) := to_int(t.all);
        end loop;
        if dflt = 1 then {P}write_file(filename => name, data => x); else {P}write_file(filename => name, data => x, mode => mode, header => header); end if;
    end procedure;
    procedure rf_fix(name : string; fmt : FixFormat_t; dflt, skip : integer; mode : en_tb.en_tb_fileio_text_pkg.text_data_mode_t; file lg : text; op : integer) is
        procedure put(x : SlvArray_t) is
            variable L : line;
        begin
            for i in x'range loop std.textio.write(L, " " & to_string(x(i))); end loop;
            if L = null then L := new string'(""); end if;
            result(lg, op, integer'image(x'length) & L.all);
        end procedure;
    begin
        if dflt = 1 then put({C}cl_fix_read_file(name, fmt)); else put({C}cl_fix_read_file(name, fmt, mode, skip)); end if;
    end procedure;
    procedure wf_fix(name, header : string; C : inout line; fmt : FixFormat_t; count, base, dflt : integer; mode : en_tb.en_tb_fileio_text_pkg.text_data_mode_t) is
        variable x : SlvArray_t(base to base+count-1)(cl_fix_width(fmt)-1 downto 0);
        variable t : line;
    begin
        for i in x'range loop
            token(C, t);
            x(i) := to_slv(t.all);
        end loop;
        if dflt = 1 then {C}cl_fix_write_file(name, x, fmt); else {C}cl_fix_write_file(name, x, fmt, mode, header); end if;
    end procedure;
    procedure getfmt(C : inout line; fmt : out FixFormat_t) is
        variable s, i, f : integer;
    begin
        num(C, s); num(C, i); num(C, f);
        fmt := (s, i, f);
    end procedure;
    function fstr(f : FixFormat_t) return string is
    begin
        return integer'image(f.S) & " " & integer'image(f.I) & " " & integer'image(f.F);
    end function;
    procedure formats_write(name : string; C : inout line; count, base : integer) is
        variable x : FixFormatArray_t(base to base+count-1);
    begin
        for i in x'range loop getfmt(C, x(i)); end loop;
        {C}cl_fix_write_format_file(name, x);
    end procedure;
    procedure formats_read(name : string; dflt, skip : integer; file lg : text; op : integer) is
        procedure put(x : FixFormatArray_t) is
            variable L : line;
        begin
            for i in x'range loop std.textio.write(L, " " & fstr(x(i))); end loop;
            if L = null then L := new string'(""); end if;
            result(lg, op, integer'image(x'length) & L.all);
        end procedure;
    begin
        if dflt = 1 then put({C}cl_fix_read_format_file(name)); else put({C}cl_fix_read_format_file(name, skip)); end if;
    end procedure;

    -- One operation on one file slot and one line slot
    procedure operate(file f : text; L : inout line; C : inout line; code : string; file lg : text; op : integer) is
        variable ty, a, b : line;
        variable n, m, k, d, skip, cls, base, cnt : integer;
        variable mode : en_tb.en_tb_fileio_text_pkg.text_data_mode_t;
        variable fmt : FixFormat_t;
        procedure getmode is
        begin
            num(C, m);
            mode := en_tb.en_tb_fileio_text_pkg.text_data_mode_t'val(m);
        end procedure;
        impure function fixv(w : integer) return std_logic_vector is
        begin
            return (w-1 downto 0 => '0');
        end function;
        procedure fix_lr(w : integer) is
            variable x : std_logic_vector(w-1 downto 0);
        begin
            if d = 1 then {C}cl_fix_read(L, x, fmt); else {C}cl_fix_read(L, x, fmt, mode); end if;
            result(lg, op, to_string(x));
        end procedure;
        procedure fix_fr(w : integer) is
            variable x : std_logic_vector(w-1 downto 0);
        begin
            if d = 1 then x := {C}cl_fix_read(f, fmt); else x := {C}cl_fix_read(f, fmt, mode, skip, cls = 1); end if;
            result(lg, op, to_string(x));
        end procedure;
    begin
        if code = "OR" then token(C, a); file_open(f, a.all, read_mode);
        elsif code = "OW" then token(C, a); file_open(f, a.all, write_mode);
        elsif code = "OA" then token(C, a); file_open(f, a.all, append_mode);
        elsif code = "CL" then file_close(f);
        elsif code = "NL" then readline(f, L);
        elsif code = "WL" then writeline(f, L);
        elsif code = "DL" then deallocate(L);
        elsif code = "LS" then txt(C, a); std.textio.write(L, a.all);
        elsif code = "SK" then num(C, n); {P}skip_lines(f, n);
        elsif code = "LW" then
            token(C, ty); getmode; num(C, k); num(C, d); token(C, b);
            if ty.all = "int" then
                if d = 1 then {P}write(L => L, x => to_int(b.all)); else {P}write(L, to_int(b.all), mode); end if;
            end if;
""")
    for ty in TYPES:
        w(f'            if ty.all = "{ty}" then lw_{ty}(L, b.all, k, d, mode); end if;')
    w('        elsif code = "LR" then\n            token(C, ty); getmode; num(C, k); num(C, d); num(C, n);')
    w('            if ty.all = "int" or ty.all = "sl" or ty.all = "bit" then lr_scalar(L, ty.all, d, mode, lg, op); end if;')
    for ty in TYPES:
        w(f'            if ty.all = "{ty}" then lr_{ty}(L, n, k, d, mode, lg, op); end if;')
    w('        elsif code = "FW" then\n            token(C, ty); getmode; num(C, d); token(C, b);')
    for ty in TYPES:
        w(f'            if ty.all = "{ty}" then fw_{ty}(f, b.all, d, mode); end if;')
    w('        elsif code = "FR" then\n            token(C, ty); getmode; num(C, k); num(C, d); num(C, n); num(C, skip); num(C, cls);')
    w('            if ty.all = "int" or ty.all = "sl" or ty.all = "bit" then fr_scalar(f, ty.all, k, d, skip, cls, mode, lg, op); end if;')
    for ty in TYPES:
        w(f'            if ty.all = "{ty}" then fr_{ty}(f, n, k, d, skip, cls, mode, lg, op); end if;')
    w('        elsif code = "RF" then\n            token(C, a); token(C, ty); getmode; num(C, d); num(C, n); num(C, skip);')
    for ty in list(TYPES) + list(SULV):
        w(f'            if ty.all = "{ty}" then rf_{ty}(a.all, n, d, skip, mode, lg, op); end if;')
    w('            if ty.all = "int" then rf_int(a.all, d, skip, mode, lg, op); end if;')
    w('        elsif code = "WF" then\n            token(C, a); token(C, ty); getmode; num(C, d); num(C, n); txt(C, b); num(C, base); num(C, cnt);')
    for ty in list(TYPES) + list(SULV):
        w(f'            if ty.all = "{ty}" then wf_{ty}(a.all, b.all, C, n, cnt, base, d, mode); end if;')
    w('            if ty.all = "int" then wf_int(a.all, b.all, C, cnt, base, d, mode); end if;')
    w(f"""        elsif code = "XLW" then
            getfmt(C, fmt); getmode; num(C, d); token(C, b);
            if d = 1 then {C}cl_fix_write(L, to_slv(b.all), fmt); else {C}cl_fix_write(L, to_slv(b.all), fmt, mode); end if;
        elsif code = "XLR" then
            getfmt(C, fmt); getmode; num(C, d); fix_lr(cl_fix_width(fmt));
        elsif code = "XFW" then
            getfmt(C, fmt); getmode; num(C, d); token(C, b);
            if d = 1 then {C}cl_fix_write(f, to_slv(b.all), fmt); else {C}cl_fix_write(f, to_slv(b.all), fmt, mode); end if;
        elsif code = "XFR" then
            getfmt(C, fmt); getmode; num(C, d); num(C, skip); num(C, cls); fix_fr(cl_fix_width(fmt));
        elsif code = "XRF" then
            token(C, a); getfmt(C, fmt); getmode; num(C, d); num(C, skip); rf_fix(a.all, fmt, d, skip, mode, lg, op);
        elsif code = "XWF" then
            token(C, a); getfmt(C, fmt); getmode; num(C, d); txt(C, b); num(C, base); num(C, cnt);
            wf_fix(a.all, b.all, C, fmt, cnt, base, d, mode);
        elsif code = "MLW" then getfmt(C, fmt); {C}cl_fix_write_format(L, fmt);
        elsif code = "MLR" then {C}cl_fix_read_format(L, fmt); result(lg, op, fstr(fmt));
        elsif code = "MFW" then getfmt(C, fmt); {C}cl_fix_write_format(f, fmt);
        elsif code = "MFR" then
            num(C, d); num(C, skip); num(C, cls);
            if d = 1 then fmt := {C}cl_fix_read_format(f); else fmt := {C}cl_fix_read_format(f, skip, cls = 1); end if;
            result(lg, op, fstr(fmt));
        elsif code = "MWF" then token(C, a); num(C, base); num(C, cnt); formats_write(a.all, C, cnt, base);
        elsif code = "MRF" then token(C, a); num(C, d); num(C, skip); formats_read(a.all, d, skip, lg, op);
        elsif code = "SZ" then token(C, a); result(lg, op, integer'image({P}get_file_size_lines(a.all)));
        elsif code = "CO" then
            token(C, a); num(C, skip); getmode; num(C, d);
            if d = 1 then result(lg, op, integer'image({P}get_file_size_columns(a.all)));
            else result(lg, op, integer'image({P}get_file_size_columns(a.all, skip, mode))); end if;
        elsif code = "EX" then num(C, n); crash(n);
        else report "unknown operation " & code severity failure;
        end if;
        deallocate(ty); deallocate(a); deallocate(b);
    end procedure;
begin
    g : for i in 0 to clients_g-1 generate
        p : process
            file cmd, lg, f0, f1, f2 : text;
            variable l0, l1, l2, C, code : line;
            variable t, op, fs, ls : integer;
            procedure with_file(file f : text) is
            begin
                case ls is
                    when 0 => operate(f, l0, C, code.all, lg, op);
                    when 1 => operate(f, l1, C, code.all, lg, op);
                    when others => operate(f, l2, C, code.all, lg, op);
                end case;
            end procedure;
        begin
            file_open(cmd, "client" & integer'image(i) & ".cmd", read_mode);
            file_open(lg, "client" & integer'image(i) & ".log", write_mode);
            while not endfile(cmd) loop
                readline(cmd, C);
                num(C, t); num(C, op); num(C, fs); num(C, ls); token(C, code);
                if t * 1 ns > now then
                    wait for t * 1 ns - now;
                end if;
                case fs is
                    when 0 => with_file(f0);
                    when 1 => with_file(f1);
                    when others => with_file(f2);
                end case;
                result(lg, op, "done");
            end loop;
            result(lg, -1, "END");
            wait;
        end process;
    end generate;
end architecture;
""")
    return "\n".join(o)


if __name__ == "__main__":
    print(generate())
