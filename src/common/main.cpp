#include "common/pbt.h"
int main( int argc, char** argv ) { return pbt::runMain( argc, argv ); }
