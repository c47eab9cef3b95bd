#include "exc_ops.hpp"
void exc_do2(std::string const& a, int c, unsigned salt, int& thrown, int& ret) { exc_do(a, c, salt, thrown, ret); }
std::string exc_obs2(int t) { return exc_obs(t); }
