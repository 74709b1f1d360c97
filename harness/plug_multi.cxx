// A plugin whose behaviour is described by the file beside it (path + ".cfg"):
//   line 1: value to return; line 2: milliseconds to take; then one implementation name per line ("t1:name").
// The entry point appends the path of the module to the file $VP_NOTES.
#include <dlfcn.h>
#include <unistd.h>
#include <fstream>
#include <string>
#include "plug_types.h"
using namespace kwiver::vital;

struct one : public algorithm_impl< one, t1 >
{
  std::string n, d;
  virtual std::string impl_name() const { return n; }
  virtual std::string description() const { return d; }
  virtual config_block_sptr get_configuration() const { auto c = config_block::empty_config(); c->set_value( "from", d ); return c; }
  virtual void set_configuration( config_block_sptr ) {}
  virtual bool check_configuration( config_block_sptr ) const { return true; }
};

extern "C" __attribute__( ( visibility( "default" ) ) ) int private_register_algo_impls( registrar& r )
{
  Dl_info me;
  dladdr( (void*) &private_register_algo_impls, &me );
  std::string const path = me.dli_fname;
  {
    std::ofstream notes( getenv( "VP_NOTES" ), std::ios::app );
    notes << path << "\n";
  }
  std::ifstream c( path + ".cfg" );
  int ret = 0, ms = 0;
  std::string x;
  c >> ret >> ms;
  std::getline( c, x );
  while( std::getline( c, x ) )
  {
    auto a = std::make_shared< one >();
    a->n = x;
    a->d = path;
    if( ms ) { usleep( ms * 1000 ); }
    t1::register_instance( r, a );
  }
  if( ms ) { usleep( ms * 1000 ); }
  return ret;
}
