// Conformance harness for the configuration block (C01..C05).
#include "hcommon.h"
#include <vital/config/config_block.h>
#include <cstdint>

using namespace kwiver::vital;
using hc::args_t;
using hc::ev;

static std::map< std::string, config_block_sptr > H;

static std::string guard( std::function< std::string() > f )
{
  try { return f(); }
  catch( set_on_read_only_value_exception const& ) { return "!set_ro"; }
  catch( unset_on_read_only_value_exception const& ) { return "!unset_ro"; }
  catch( no_such_configuration_value_exception const& ) { return "!no_such"; }
  catch( bad_config_block_cast_exception const& ) { return "!bad_cast"; }
  catch( std::exception const& e ) { return std::string( "!other " ) + e.what(); }
  catch( ... ) { return "!unknown"; }
}

static std::string locof( config_block_sptr b, std::string const& k )
{
  std::string f; int line = 0;
  if( !b->get_location( k, f, line ) ) { return ""; }
  return f + ":" + std::to_string( line );
}

static std::string rows( config_block_sptr b )
{
  std::string o = "[";
  bool first = true;
  for( auto const& k : b->available_values() )
  {
    std::string v = guard( [&] { return b->get_value< std::string >( k ); } );
    std::string d = guard( [&] { return b->get_description( k ); } );
    o += ( first ? "" : "," );
    first = false;
    o += "[" + hc::js( k ) + "," + hc::js( v ) + "," + hc::js( d ) + "," +
         hc::js( b->is_read_only( k ) ? "RO" : "" ) + "," + hc::js( locof( b, k ) ) + "]";
  }
  return o + "]";
}

template< class T > T parse( std::string const& s ) { std::istringstream i( s ); T t; i >> t; return t; }
template< class T > std::string show( T const& t ) { return std::to_string( t ); }
template<> std::string show( std::string const& t ) { return t; }
template<> std::string show( bool const& t ) { return t ? "1" : "0"; }
template<> std::string parse( std::string const& s ) { return s; }
template<> bool parse( std::string const& s ) { return s == "1"; }

template< class T > void get_op( args_t const& a, ev& e )
{
  auto b = H.at( a[1] );
  e.s( "r", guard( [&] { return "V" + show< T >( b->get_value< T >( a[2] ) ); } ) );
}
template< class T > void getd_op( args_t const& a, ev& e )
{
  auto b = H.at( a[1] );
  T d = parse< T >( a[4] );
  e.s( "r", guard( [&] { return "V" + show< T >( b->get_value< T >( a[2], d ) ); } ) );
}
template< class T > void sett_op( args_t const& a, ev& e )
{
  auto b = H.at( a[1] );
  T v = parse< T >( a[4] );
  e.s( "r", guard( [&] { if( a[5] == "-" ) { b->set_value( a[2], v ); } else { b->set_value( a[2], v, a[6] ); } return "ok"; } ) );
  // text form chosen by the typed assignment
  e.s( "t", guard( [&] { return b->get_value< std::string >( a[2], std::string() ); } ) );
}

int main( int argc, char** argv )
{
  hc::runner r;
  r.on_reset = [] { H.clear(); };
  r.ops["new"] = [&]( args_t const& a, ev& e ) { H[a[1]] = config_block::empty_config( a[2] ); e.s( "h", a[1] ).s( "name", a[2] ).s( "r", "ok" ); };
  r.ops["view"] = [&]( args_t const& a, ev& e ) { H[a[1]] = H.at( a[2] )->subblock_view( a[3] ); e.s( "h", a[1] ).s( "p", a[2] ).s( "k", a[3] ).s( "r", "ok" ); };
  r.ops["sub"] = [&]( args_t const& a, ev& e ) {
    e.s( "h", a[1] ).s( "p", a[2] ).s( "k", a[3] );
    e.s( "r", guard( [&] { H[a[1]] = H.at( a[2] )->subblock( a[3] ); return "ok"; } ) );
  };
  // give up our reference to a handle; views of it must stay usable
  r.ops["drop"] = [&]( args_t const& a, ev& e ) { H.erase( a[1] ); e.s( "h", a[1] ); };
  r.ops["name"] = [&]( args_t const& a, ev& e ) { e.s( "h", a[1] ).s( "r", H.at( a[1] )->get_name() ); };
  r.ops["set"] = [&]( args_t const& a, ev& e ) {
    // set h k v [d]
    e.s( "h", a[1] ).s( "k", a[2] ).s( "v", a[3] ).s( "d", a.size() > 4 ? a[4] : "" );
    e.s( "r", guard( [&] { if( a.size() > 4 ) { H.at( a[1] )->set_value( a[2], a[3], a[4] ); } else { H.at( a[1] )->set_value( a[2], a[3] ); } return "ok"; } ) );
  };
  r.ops["unset"] = [&]( args_t const& a, ev& e ) { e.s( "h", a[1] ).s( "k", a[2] ).s( "r", guard( [&] { H.at( a[1] )->unset_value( a[2] ); return "ok"; } ) ); };
  r.ops["mark"] = [&]( args_t const& a, ev& e ) { e.s( "h", a[1] ).s( "k", a[2] ).s( "r", guard( [&] { H.at( a[1] )->mark_read_only( a[2] ); return "ok"; } ) ); };
  r.ops["isro"] = [&]( args_t const& a, ev& e ) { e.s( "h", a[1] ).s( "k", a[2] ).s( "r", guard( [&] { return H.at( a[1] )->is_read_only( a[2] ) ? "T" : "F"; } ) ); };
  r.ops["has"] = [&]( args_t const& a, ev& e ) { e.s( "h", a[1] ).s( "k", a[2] ).s( "r", guard( [&] { return H.at( a[1] )->has_value( a[2] ) ? "T" : "F"; } ) ); };
  r.ops["descr"] = [&]( args_t const& a, ev& e ) { e.s( "h", a[1] ).s( "k", a[2] ).s( "r", guard( [&] { return "V" + H.at( a[1] )->get_description( a[2] ); } ) ); };
  r.ops["setloc"] = [&]( args_t const& a, ev& e ) {
    H.at( a[1] )->set_location( a[2], std::make_shared< std::string >( a[3] ), atoi( a[4].c_str() ) );
    e.s( "h", a[1] ).s( "k", a[2] ).s( "f", a[3] + ":" + a[4] ).s( "r", "ok" );
  };
  r.ops["getloc"] = [&]( args_t const& a, ev& e ) { e.s( "h", a[1] ).s( "k", a[2] ).s( "r", locof( H.at( a[1] ), a[2] ) ); };
  r.ops["print"] = [&]( args_t const& a, ev& e ) { std::ostringstream o; e.s( "h", a[1] ).s( "r", guard( [&] { H.at( a[1] )->print( o ); return "ok"; } ) ); };
  r.ops["keys"] = [&]( args_t const& a, ev& e ) { e.s( "h", a[1] ).sl( "l", H.at( a[1] )->available_values() ); };
  r.ops["dump"] = [&]( args_t const& a, ev& e ) { e.s( "h", a[1] ).raw( "l", rows( H.at( a[1] ) ) ); };
  r.ops["merge"] = [&]( args_t const& a, ev& e ) {
    e.s( "h", a[1] ).s( "p", a[2] );
    e.s( "r", guard( [&] { H.at( a[1] )->merge_config( H.at( a[2] ) ); return "ok"; } ) );
    e.raw( "post", rows( H.at( a[1] ) ) );
  };
  // get h k ty
  r.ops["get"] = [&]( args_t const& a, ev& e ) {
    e.s( "h", a[1] ).s( "k", a[2] ).s( "ty", a[3] );
    if( a[3] == "int" ) { get_op< int >( a, e ); }
    else if( a[3] == "uint" ) { get_op< unsigned >( a, e ); }
    else if( a[3] == "i64" ) { get_op< int64_t >( a, e ); }
    else if( a[3] == "u64" ) { get_op< uint64_t >( a, e ); }
    else if( a[3] == "bool" ) { get_op< bool >( a, e ); }
    else { get_op< std::string >( a, e ); }
  };
  // getd h k ty default
  r.ops["getd"] = [&]( args_t const& a, ev& e ) {
    e.s( "h", a[1] ).s( "k", a[2] ).s( "ty", a[3] ).s( "d", a[4] );
    if( a[3] == "int" ) { getd_op< int >( a, e ); }
    else if( a[3] == "uint" ) { getd_op< unsigned >( a, e ); }
    else if( a[3] == "i64" ) { getd_op< int64_t >( a, e ); }
    else if( a[3] == "u64" ) { getd_op< uint64_t >( a, e ); }
    else if( a[3] == "bool" ) { getd_op< bool >( a, e ); }
    else { getd_op< std::string >( a, e ); }
  };
  // sett h k ty value ("-" | "d" descr)
  r.ops["sett"] = [&]( args_t const& a, ev& e ) {
    e.s( "h", a[1] ).s( "k", a[2] ).s( "ty", a[3] ).s( "v", a[4] ).s( "d", a[5] == "-" ? "" : a[6] );
    if( a[3] == "int" ) { sett_op< int >( a, e ); }
    else if( a[3] == "uint" ) { sett_op< unsigned >( a, e ); }
    else if( a[3] == "i64" ) { sett_op< int64_t >( a, e ); }
    else if( a[3] == "u64" ) { sett_op< uint64_t >( a, e ); }
    else if( a[3] == "bool" ) { sett_op< bool >( a, e ); }
    else { sett_op< std::string >( a, e ); }
  };
  return r.main( argc, argv );
}
