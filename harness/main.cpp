#include "pbt.hpp"
int main(int c,char**v){return pbt::pbtMain(c,v);}
