#include "simrt.hpp"
int main(int argc, char** argv) { return sim::harness_main(argc, argv); }
