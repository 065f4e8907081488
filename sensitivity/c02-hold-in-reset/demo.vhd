library ieee;
    use ieee.std_logic_1164.all;
    use ieee.numeric_std.all;
library work;
    use work.en_cl_fix_pkg.all;

entity demo is
end entity;

architecture sim of demo is
    constant a_fmt_c : FixFormat_t := (1,3,4);
    constant r_fmt_c : FixFormat_t := (1,2,4);
    signal clk, rst, in_valid, out_valid : std_logic := '0';
    signal in_meta, out_meta : std_logic_vector(7 downto 0) := (others => '0');
    signal in_data  : std_logic_vector(cl_fix_width(a_fmt_c)-1 downto 0) := (others => '0');
    signal out_data : std_logic_vector(cl_fix_width(r_fmt_c)-1 downto 0);
begin
    i_dut : entity work.en_cl_fix_saturate
    generic map(in_fmt_g => a_fmt_c, out_fmt_g => r_fmt_c, saturate_g => Sat_s, reg_mode_g => Yes_s, meta_width_g => 8)
    port map(clk => clk, rst => rst, in_valid => in_valid, in_meta => in_meta, in_data => in_data,
             out_valid => out_valid, out_meta => out_meta, out_data => out_data);
    process
        procedure tick is
        begin
            clk <= '0'; wait for 5 ns; clk <= '1'; wait for 5 ns;
        end procedure;
    begin
        rst <= '1'; tick; tick; rst <= '0';
        in_valid <= '1'; in_data <= x"25"; tick;
        rst <= '1'; tick;
        assert out_valid = '0' report "old beat kept valid by reset" severity failure;
        rst <= '0'; in_valid <= '0'; tick;
        report "demo ok";
        wait;
    end process;
end architecture;
