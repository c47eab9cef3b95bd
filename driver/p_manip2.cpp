#include "settings.hpp"
void set_field2(std::ostream& os, std::string const& f, int v) { set_field(os, f, v); }
