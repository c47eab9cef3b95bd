// written by tools/mklits.py
struct LitGroup { std::vector<std::string> heads, tokens; };
static std::vector<LitGroup> const lit_groups = {
    { { "[" }, { "1", "2.5", "-", "+", ",", "]", "inf", " ", "/" } },
    { { "1", "-2.5", "+3.", ".", "" }, { "?", "7", "u", "d", "e", "-", "0", "_com" } },
    { { "[0x", "[-0X", "[0x1p2," }, { "1", "a.", "p", "P-", "3", "0x", "]", "," } },
    { { "[1,2]", "[.5]", "[ ]", "[empty", "[nai", "[entire", "5?", "[1,inf]", "5??", "[-1e9,1/3]", "7??u" }, { "]", "_", "com", "dac", "trv", "def", "ill", "4", "16", " ", "0" } },
    { { "[", "[-1e" }, { "1", "e", "E+", "-", ".", "0", "]" } },
};
