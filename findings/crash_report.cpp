#include "pre.h"
#include "cocpp/exception/co_exception.h"
#include <string>
int main()
{
    std::string s = maps_info();
    expect("the report names the executable", s.find("exe:/") == 0);
    expect("the report lists the mappings", s.find("maps:") != std::string::npos && s.size() > 200);
    _exit(bad);
}
