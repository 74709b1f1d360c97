// has the entry point, but cannot be loaded: refers to an object nobody defines
extern int vp_nobody_defines_this;
__attribute__( ( visibility( "default" ) ) ) int* vp_where = &vp_nobody_defines_this;
extern "C" __attribute__( ( visibility( "default" ) ) ) int private_register_algo_impls( void* ) { return *vp_where; }
