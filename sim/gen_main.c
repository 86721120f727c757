/* workload "generator": one run of the real cocogen main() */
#include "sim.h"
int cocogen_main(int argc, char **argv);
int sim_target_main(int argc, char **argv) { return cocogen_main(argc, argv); }
