// loads, but has no entry point
extern "C" __attribute__( ( visibility( "default" ) ) ) int register_algo_impls() { return 0; }
