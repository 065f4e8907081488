-- Deterministic simulation harness for the clocked en_cl_fix stages.
--
-- Every instance ("node") has generics read from cfg.txt, its own clock, reset and inputs driven by
-- the event file node<i>.ev, and a log node<i>.log. The harness takes no decision of its own: every
-- waveform comes from the event files, which the Python side derives from one seed.
--
-- cfg.txt : first line = node count, then one line per node:
--           kind aS aI aF rS rI rF rnd sat reg meta fmtcheck
--           kind: 0 round, 1 saturate, 2 resize, 3/4/5 the same with meta left at its default
-- node.ev : "dt_ps mode clk rst valid meta data" ; mode S = sample outputs before driving
-- node.log: "E|S valid meta data" ; E = sampled by a consumer at a rising clock edge
library std;
    use std.textio.all;
library ieee;
    use ieee.std_logic_1164.all;
library work;
    use work.en_cl_fix_pkg.all;

entity rtlsim_tb is
end entity;

architecture sim of rtlsim_tb is

    type cfg_t is record
        kind, rnd, sat, reg, meta, chk : integer;
        a, r : FixFormat_t;
    end record;
    type cfg_array_t is array(natural range <>) of cfg_t;

    impure function get_count return natural is
        file f : text;
        variable L : line;
        variable n : integer;
    begin
        file_open(f, "cfg.txt", read_mode);
        readline(f, L);
        read(L, n);
        file_close(f);
        return n;
    end function;

    constant count_c : natural := get_count;

    impure function get_cfg return cfg_array_t is
        file f : text;
        variable L : line;
        variable n : integer;
        variable v : cfg_array_t(0 to count_c-1);
    begin
        file_open(f, "cfg.txt", read_mode);
        readline(f, L);
        for i in v'range loop
            readline(f, L);
            read(L, v(i).kind);
            read(L, n); v(i).a.S := n;
            read(L, n); v(i).a.I := n;
            read(L, n); v(i).a.F := n;
            read(L, n); v(i).r.S := n;
            read(L, n); v(i).r.I := n;
            read(L, n); v(i).r.F := n;
            read(L, v(i).rnd);
            read(L, v(i).sat);
            read(L, v(i).reg);
            read(L, v(i).meta);
            read(L, v(i).chk);
        end loop;
        file_close(f);
        return v;
    end function;

    constant cfg_c : cfg_array_t(0 to count_c-1) := get_cfg;

    function to_sl(c : character) return std_logic is
    begin
        case c is
            when '0' => return '0';
            when '1' => return '1';
            when 'X' => return 'X';
            when 'U' => return 'U';
            when 'Z' => return 'Z';
            when 'W' => return 'W';
            when 'L' => return 'L';
            when 'H' => return 'H';
            when others => return '-';
        end case;
    end function;

    function to_ch(c : std_logic) return character is
        constant map_c : string(1 to 9) := "UX01ZWLH-";
    begin
        return map_c(1 + std_logic'pos(c));
    end function;

    function to_st(v : std_logic_vector) return string is
        alias v_a : std_logic_vector(1 to v'length) is v;
        variable s : string(1 to v'length);
    begin
        for i in s'range loop
            s(i) := to_ch(v_a(i));
        end loop;
        return s;
    end function;

begin

    g_node : for i in 0 to count_c-1 generate
        constant c : cfg_t := cfg_c(i);
        constant aw_c : natural := cl_fix_width(c.a);
        constant rw_c : natural := cl_fix_width(c.r);
        signal clk, rst, in_valid, out_valid : std_logic;
        signal in_meta, out_meta : std_logic_vector(c.meta-1 downto 0);
        signal in_data  : std_logic_vector(aw_c-1 downto 0);
        signal out_data : std_logic_vector(rw_c-1 downto 0);
        file ev  : text;
        file log : text;
        signal ready : boolean := false;
    begin

        p_drive : process
            variable L, O : line;
            variable dt, p : integer;
            variable mode, ch : character;
            variable meta_v : std_logic_vector(c.meta-1 downto 0);
            variable data_v : std_logic_vector(aw_c-1 downto 0);
        begin
            file_open(ev, "node" & integer'image(i) & ".ev", read_mode);
            file_open(log, "node" & integer'image(i) & ".log", write_mode);
            ready <= true;
            while not endfile(ev) loop
                readline(ev, L);
                read(L, dt);
                read(L, ch);
                read(L, mode);
                wait for dt * 1 ps;
                if mode = 'S' then
                    O := new string'("S " & to_ch(out_valid) & to_st(out_meta) & to_st(out_data));
                    writeline(log, O);
                end if;
                read(L, ch);
                read(L, ch); clk <= to_sl(ch);
                read(L, ch); rst <= to_sl(ch);
                read(L, ch); in_valid <= to_sl(ch);
                for k in c.meta-1 downto 0 loop
                    read(L, ch); meta_v(k) := to_sl(ch);
                end loop;
                for k in aw_c-1 downto 0 loop
                    read(L, ch); data_v(k) := to_sl(ch);
                end loop;
                in_meta <= meta_v;
                in_data <= data_v;
            end loop;
            wait for 1 ns;
            O := new string'("END");
            writeline(log, O);
            file_close(log);
            wait;
        end process;

        p_sample : process
            variable O : line;
        begin
            wait until rising_edge(clk);
            O := new string'("E " & to_ch(out_valid) & to_st(out_meta) & to_st(out_data));
            writeline(log, O);
        end process;

        g_round : if c.kind = 0 generate
            i_dut : entity work.en_cl_fix_round
            generic map(in_fmt_g => c.a, out_fmt_g => c.r, round_g => FixRound_t'val(c.rnd),
                        reg_mode_g => RegisterMode_t'val(c.reg), meta_width_g => c.meta, fmt_check_g => c.chk = 1)
            port map(clk => clk, rst => rst, in_valid => in_valid, in_meta => in_meta, in_data => in_data,
                     out_valid => out_valid, out_meta => out_meta, out_data => out_data);
        end generate;

        g_sat : if c.kind = 1 generate
            i_dut : entity work.en_cl_fix_saturate
            generic map(in_fmt_g => c.a, out_fmt_g => c.r, saturate_g => FixSaturate_t'val(c.sat),
                        reg_mode_g => RegisterMode_t'val(c.reg), meta_width_g => c.meta)
            port map(clk => clk, rst => rst, in_valid => in_valid, in_meta => in_meta, in_data => in_data,
                     out_valid => out_valid, out_meta => out_meta, out_data => out_data);
        end generate;

        g_res : if c.kind = 2 generate
            i_dut : entity work.en_cl_fix_resize
            generic map(in_fmt_g => c.a, out_fmt_g => c.r, round_g => FixRound_t'val(c.rnd), saturate_g => FixSaturate_t'val(c.sat),
                        reg_mode_g => RegisterMode_t'val(c.reg), meta_width_g => c.meta)
            port map(clk => clk, rst => rst, in_valid => in_valid, in_meta => in_meta, in_data => in_data,
                     out_valid => out_valid, out_meta => out_meta, out_data => out_data);
        end generate;

        g_round_d : if c.kind = 3 generate
            i_dut : entity work.en_cl_fix_round
            generic map(in_fmt_g => c.a, out_fmt_g => c.r, round_g => FixRound_t'val(c.rnd),
                        reg_mode_g => RegisterMode_t'val(c.reg), fmt_check_g => c.chk = 1)
            port map(clk => clk, rst => rst, in_valid => in_valid, in_data => in_data,
                     out_valid => out_valid, out_meta => open, out_data => out_data);
        end generate;

        g_sat_d : if c.kind = 4 generate
            i_dut : entity work.en_cl_fix_saturate
            generic map(in_fmt_g => c.a, out_fmt_g => c.r, saturate_g => FixSaturate_t'val(c.sat),
                        reg_mode_g => RegisterMode_t'val(c.reg))
            port map(clk => clk, rst => rst, in_valid => in_valid, in_data => in_data,
                     out_valid => out_valid, out_meta => open, out_data => out_data);
        end generate;

        g_res_d : if c.kind = 5 generate
            i_dut : entity work.en_cl_fix_resize
            generic map(in_fmt_g => c.a, out_fmt_g => c.r, round_g => FixRound_t'val(c.rnd), saturate_g => FixSaturate_t'val(c.sat),
                        reg_mode_g => RegisterMode_t'val(c.reg))
            port map(clk => clk, rst => rst, in_valid => in_valid, in_data => in_data,
                     out_valid => out_valid, out_meta => open, out_data => out_data);
        end generate;

    end generate;

end architecture;
