// Conformance harness: the C interface (C23, C24, C25).  Needs AddressSanitizer (to see what has been freed).
#include "hcommon.h"
#include <vital/bindings/c/algorithm.h>
#include <vital/bindings/c/camera.h>
#include <vital/bindings/c/camera_map.h>
#include <vital/bindings/c/common.h>
#include <vital/bindings/c/config_block.h>
#include <vital/bindings/c/error_handle.h>
#include <vital/bindings/c/image.h>
#include <vital/bindings/c/image_container.h>
#include <vital/bindings/c/image_container.hxx>
#include <vital/bindings/c/track.h>
#include <vital/bindings/c/track_set.h>
#include <vital/bindings/c/algo_def/convert_image.h>
#include <vital/bindings/c/algo_def/image_io.h>
#include <vital/bindings/c/algo_def/track_features.h>
#include <vital/algo/convert_image.h>
#include <vital/algo/image_io.h>
#include <vital/algo/track_features.h>
#include <vital/registrar.h>
#include <vital/config/config_block.h>
#include <vital/config/config_block_io.h>
#include <vital/io/track_set_io.h>
#include <vital/io/camera_io.h>
#include <vital/types/track_set.h>
#include <sanitizer/asan_interface.h>
#include <sys/stat.h>
#include <memory>
using namespace kwiver::vital;
using hc::args_t;
using hc::ev;

// ---------------------------------------------------------------- identities of objects
static std::map< void*, std::string > ids; // live objects by address
static int serial = 0;
static std::string id( void* p )
{
  if( !p ) { return "0"; }
  auto it = ids.find( p );
  return it == ids.end() ? "?" : it->second;
}
// an object that was just handed out or seen
static std::string born( void* p )
{
  if( !p ) { return "0"; }
  if( !ids.count( p ) ) { ids[p] = "o" + std::to_string( ++serial ); }
  return ids[p];
}
static std::vector< std::string > freed()
{
  std::vector< std::string > v;
  for( auto it = ids.begin(); it != ids.end(); )
  {
    if( __asan_address_is_poisoned( it->first ) ) { v.push_back( it->second ); ids.erase( it++ ); }
    else { ++it; }
  }
  return v;
}

static char junk[256];
static std::map< std::string, void* > slots;
static void* at( std::string const& n )
{
  if( n == "null" ) { return 0; }
  if( n == "junk" ) { return junk; }
  return slots.count( n ) ? slots[n] : 0; // not made: none
}
// what a handle denotes now: stale ones denote nothing
static std::string idof( std::string const& n ) { return n == "null" ? "0" : id( at( n ) ); }
static char const* str( std::string const& s ) { return s == "<null>" ? 0 : s.c_str(); }
static std::string path( std::string const& w, std::string const& p ) { return p == "<null>" ? p : p.empty() ? p : w + "/" + p; }

// ---------------------------------------------------------------- algorithms behind the interface
static std::string last_saw;
struct body
{
  std::string p, type, impl;
  config_block_sptr own;
  body() : p( "copy" ) { own = config_block::empty_config(); own->set_value( "p", p ); }
  body( body const& o ) : p( o.now() ), type( o.type ), impl( o.impl ) { own = config_block::empty_config(); own->set_value( "p", p ); }
  bool keeps() const { return impl == "keeps"; }
  std::string now() const { return keeps() ? own->get_value< std::string >( "p", "" ) : p; }
  config_block_sptr report() const
  {
    if( keeps() ) { return own; }
    auto c = config_block::empty_config();
    c->set_value( "p", p );
    return c;
  }
  void configure( config_block_sptr c )
  {
    std::string q = c->get_value< std::string >( "p", now() );
    if( q == "refuse" ) { throw std::runtime_error( "refused " + c->get_value< std::string >( "why", "" ) ); }
    if( q == "refusec" ) { throw "refused without an object"; }
    if( q == "refusei" ) { throw 42; }
    p = q;
    if( keeps() ) { own->set_value( "p", q ); }
  }
  bool accepts( config_block_sptr c ) const
  {
    if( c->get_value< std::string >( "p", "" ) == "boom" ) { throw std::runtime_error( "cannot check" ); }
    return c->get_value< std::string >( "p", "" ) != "bad";
  }
  void act() const { if( now() == "boom" ) { throw std::logic_error( "action failed for " + impl ); } }
};
#define COMMON( C ) \
  virtual std::string impl_name() const { return impl; } \
  virtual std::string type_name() const { return type; } \
  virtual config_block_sptr get_configuration() const { return report(); } \
  virtual void set_configuration( config_block_sptr c ) { configure( c ); } \
  virtual bool check_configuration( config_block_sptr c ) const { return accepts( c ); }

static image_container_sptr made( image const& i ) { return image_container_sptr( new simple_image_container( i ) ); }

struct conv : public algorithm_impl< conv, algo::convert_image >, public body
{
  COMMON( conv )
  virtual image_container_sptr convert( image_container_sptr i ) const
  {
    act();
    if( now() == "null" ) { return image_container_sptr(); }
    if( now() == "same" ) { return i; }
    return made( i->get_image() );
  }
};
struct imio : public algorithm_impl< imio, algo::image_io >, public body
{
  COMMON( imio )
  virtual image_container_sptr load_( std::string const& f ) const
  {
    act();
    if( now() == "null" ) { return image_container_sptr(); }
    image i( 2, 1, 1 );
    i( 0, 0 ) = 7;
    i( 1, 0 ) = 9;
    return made( i );
  }
  virtual void save_( std::string const& f, image_container_sptr c ) const { act(); last_saw = f + " " + id( c.get() ); }
};
struct trk : public algorithm_impl< trk, algo::track_features >, public body
{
  COMMON( trk )
  virtual track_set_sptr track( track_set_sptr s, unsigned int f, image_container_sptr i, image_container_sptr m ) const
  {
    last_saw = id( s.get() ) + " " + std::to_string( f ) + " " + id( i.get() ) + " " + id( m.get() );
    act();
    if( now() == "null" ) { return track_set_sptr(); }
    if( now() == "same" ) { return s; }
    std::vector< track_sptr > t = s->tracks();
    track_sptr n( new kwiver::vital::track( kwiver::vital::track::track_state( f, std::make_shared< feature_d >(), descriptor_sptr() ) ) );
    static int next_id = 1000;
    n->set_id( ++next_id );
    t.push_back( n );
    return track_set_sptr( new simple_track_set( t ) );
  }
};

// ---------------------------------------------------------------- the error handle
struct handle
{
  bool given;
  vital_error_handle_t* h;
  explicit handle( std::string const& e ) : given( e == "e" ), h( given ? vital_eh_new() : 0 ) {}
  // nat: the message the failing operation has by itself, if known
  void show( ev& e, std::string const& nat = "" )
  {
    std::string const m = h && h->message ? h->message : "";
    size_t const p = nat.empty() ? 0 : m.find( nat );
    e.i( "ec", h ? h->error_code : -99 ).s( "msg", m ).s( "nat", nat ).i( "at", p == std::string::npos ? -1 : (long long) p );
    vital_eh_destroy( h );
    h = 0;
  }
};

static void vstr( ev& e, vital_string_t* s )
{
  e.t( "got", s != 0 );
  if( !s ) { return; }
  e.s( "s", s->str ).i( "n", (long long) s->length );
  vital_string_free( s );
}
static void vlist( ev& e, unsigned int n, char** l )
{
  std::vector< std::string > v;
  for( unsigned int i = 0; i < n; ++i ) { v.push_back( l[i] ); }
  vital_common_free_string_list( n, l );
  e.sl( "l", v );
}
template< class F > static std::string what_of( F f )
{
  try { f(); }
  catch( std::exception const& x ) { return x.what(); }
  catch( ... ) { return ""; }
  return "";
}

struct common
{
  vital_algorithm_t* ( *create )( char const* );
  void ( *destroy )( vital_algorithm_t*, vital_error_handle_t* );
  void ( *names )( unsigned int*, char*** );
  void ( *getc )( char const*, vital_algorithm_t*, vital_config_block_t*, vital_error_handle_t* );
  void ( *setc )( char const*, vital_config_block_t*, vital_algorithm_t**, vital_error_handle_t* );
  bool ( *check )( char const*, vital_config_block_t*, vital_error_handle_t* );
  vital_algorithm_t* ( *clone )( vital_algorithm_t*, vital_error_handle_t* );
};
#define API( T ) { vital_algorithm_ ## T ## _create, vital_algorithm_ ## T ## _destroy, vital_algorithm_ ## T ## _registered_names, \
                   vital_algorithm_ ## T ## _get_type_config, vital_algorithm_ ## T ## _set_type_config, vital_algorithm_ ## T ## _check_type_config, vital_algorithm_ ## T ## _clone }
static std::map< std::string, common > const api = { { "convert_image", API( convert_image ) }, { "image_io", API( image_io ) }, { "track_features", API( track_features ) } };

typedef vital_config_block_t* C;
typedef vital_image_t* I;
typedef vital_image_container_t* X;
typedef vital_track_t* T;
typedef vital_trackset_t* S;
typedef vital_camera_t* K;
typedef vital_camera_map_t* M;
typedef vital_algorithm_t* A;

int main( int argc, char** argv )
{
  hc::runner R;
  std::map< std::string, track_set_sptr > native;
  std::string base;
  static int nbase = 0;
  R.on_reset = [&]() { base = R.work + "/s" + std::to_string( ++nbase ); mkdir( base.c_str(), 0777 ); slots.clear(); ids.clear(); native.clear(); };
  std::map< std::string, std::function< void( args_t const&, ev& ) > > op;
  {
    registrar& r = registrar::instance();
    for( std::string n : { "plain", "keeps" } )
    {
      auto a = std::make_shared< conv >(); a->impl = n; a->type = "convert_image"; algo::convert_image::register_instance( r, a );
      auto b = std::make_shared< imio >(); b->impl = n; b->type = "image_io"; algo::image_io::register_instance( r, b );
      auto c = std::make_shared< trk >(); c->impl = n; c->type = "track_features"; algo::track_features::register_instance( r, c );
    }
  }
  // the memory of an image
  auto mem = [&]( I i ) { return i && vital_image_size( i ) ? born( vital_image_first_pixel( i ) ) : std::string( "" ); };

  // every key, value, description and mark
  std::function< std::string( C ) > rows = []( C c ) -> std::string {
    unsigned int n = 777;
    char** k = 0;
    vital_config_block_available_values( c, &n, &k );
    if( n == 777 ) { return "[]"; }
    std::string o = "[";
    for( unsigned int i = 0; i < n; ++i )
    {
      vital_string_t* v = vital_config_block_get_value( c, k[i] );
      vital_string_t* d = vital_config_block_get_description( c, k[i] );
      o += std::string( i ? "," : "" ) + "[" + hc::js( k[i] ) + "," + hc::js( v ? v->str : "<null>" ) + "," + hc::js( d ? d->str : "<null>" ) + "," + hc::js( vital_config_block_is_read_only( c, k[i] ) ? "RO" : "" ) + "]";
      if( v ) { vital_string_free( v ); }
      if( d ) { vital_string_free( d ); }
    }
    vital_common_free_string_list( n, k );
    return o + "]";
  };
  op["cdump"] = [&]( args_t const& a, ev& e ) {
    C const c = (C) at( a[1] );
    unsigned int n = 777;
    char** k = 0;
    vital_config_block_available_values( c, &n, &k );
    e.s( "a", idof( a[1] ) ).t( "got", n != 777 ).raw( "l", rows( c ) );
    if( n != 777 ) { vital_common_free_string_list( n, k ); }
  };
  // ---- configuration
  op["cnew"] = [&]( args_t const& a, ev& e ) { slots[a[1]] = a[2] == "<new>" ? vital_config_block_new() : vital_config_block_new_named( str( a[2] ) ); e.s( "name", a[2] == "<new>" ? "" : a[2] ).s( "p", born( slots[a[1]] ) ); };
  op["cdestroy"] = [&]( args_t const& a, ev& e ) { e.s( "a", idof( a[1] ) ); handle h( a[2] ); vital_config_block_destroy( (C) at( a[1] ), h.h ); h.show( e ); };
  op["cname"] = [&]( args_t const& a, ev& e ) { e.s( "a", idof( a[1] ) ); vstr( e, vital_config_block_get_name( (C) at( a[1] ) ) ); };
  op["csub"] = [&]( args_t const& a, ev& e ) { e.s( "a", idof( a[2] ) ).s( "k", a[3] ); slots[a[1]] = vital_config_block_subblock( (C) at( a[2] ), str( a[3] ) ); e.s( "p", born( slots[a[1]] ) ); };
  op["cview"] = [&]( args_t const& a, ev& e ) { e.s( "a", idof( a[2] ) ).s( "k", a[3] ); slots[a[1]] = vital_config_block_subblock_view( (C) at( a[2] ), str( a[3] ) ); e.s( "p", born( slots[a[1]] ) ); };
  op["cget"] = [&]( args_t const& a, ev& e ) { e.s( "a", idof( a[1] ) ).s( "k", a[2] ); vstr( e, vital_config_block_get_value( (C) at( a[1] ), str( a[2] ) ) ); };
  op["cgetd"] = [&]( args_t const& a, ev& e ) { e.s( "a", idof( a[1] ) ).s( "k", a[2] ).s( "d", a[3] ); vstr( e, vital_config_block_get_value_default( (C) at( a[1] ), str( a[2] ), str( a[3] ) ) ); };
  op["cgetb"] = [&]( args_t const& a, ev& e ) { e.s( "a", idof( a[1] ) ).s( "k", a[2] ); handle h( a[3] ); e.t( "b", vital_config_block_get_value_bool( (C) at( a[1] ), str( a[2] ), h.h ) ); h.show( e, a[2] == "<null>" ? "" : a[2] ); };
  op["cgetbd"] = [&]( args_t const& a, ev& e ) { e.s( "a", idof( a[1] ) ).s( "k", a[2] ).t( "d", a[3] == "1" ); handle h( a[4] ); e.t( "b", vital_config_block_get_value_default_bool( (C) at( a[1] ), str( a[2] ), a[3] == "1", h.h ) ); h.show( e ); };
  op["cdescr"] = [&]( args_t const& a, ev& e ) { e.s( "a", idof( a[1] ) ).s( "k", a[2] ); vstr( e, vital_config_block_get_description( (C) at( a[1] ), str( a[2] ) ) ); };
  op["cset"] = [&]( args_t const& a, ev& e ) { e.s( "a", idof( a[1] ) ).s( "k", a[2] ).s( "v", a[3] ); vital_config_block_set_value( (C) at( a[1] ), str( a[2] ), str( a[3] ) ); };
  op["csetd"] = [&]( args_t const& a, ev& e ) { e.s( "a", idof( a[1] ) ).s( "k", a[2] ).s( "v", a[3] ).s( "d", a[4] ); vital_config_block_set_value_descr( (C) at( a[1] ), str( a[2] ), str( a[3] ), str( a[4] ) ); };
  op["cunset"] = [&]( args_t const& a, ev& e ) { e.s( "a", idof( a[1] ) ).s( "k", a[2] ); vital_config_block_unset_value( (C) at( a[1] ), str( a[2] ) ); };
  op["cmark"] = [&]( args_t const& a, ev& e ) { e.s( "a", idof( a[1] ) ).s( "k", a[2] ); vital_config_block_mark_read_only( (C) at( a[1] ), str( a[2] ) ); };
  op["cisro"] = [&]( args_t const& a, ev& e ) { e.s( "a", idof( a[1] ) ).s( "k", a[2] ).t( "b", vital_config_block_is_read_only( (C) at( a[1] ), str( a[2] ) ) ); };
  op["chas"] = [&]( args_t const& a, ev& e ) { e.s( "a", idof( a[1] ) ).s( "k", a[2] ).t( "b", vital_config_block_has_value( (C) at( a[1] ), str( a[2] ) ) ); };
  op["cmerge"] = [&]( args_t const& a, ev& e ) { e.s( "a", idof( a[1] ) ).s( "g", idof( a[2] ) ); vital_config_block_merge_config( (C) at( a[1] ), (C) at( a[2] ) ); e.raw( "post", rows( (C) at( a[1] ) ) ); };
  op["cconst"] = [&]( args_t const& a, ev& e ) {
    vital_string_t* b = vital_config_block_block_sep();
    vital_string_t* g = vital_config_block_global_value();
    e.s( "sep", b->str ).i( "sn", b->length ).s( "glob", g->str ).i( "gn", g->length ).t( "same", b == vital_config_block_block_sep() && g == vital_config_block_global_value() );
  };
  // ---- files: mkfile path kind (entries...)
  op["mkfile"] = [&]( args_t const& a, ev& e ) {
    std::string const p = path( base, a[1] );
    for( size_t i = base.size() + 1; i < p.size(); ++i ) { if( p[i] == '/' ) { mkdir( p.substr( 0, i ).c_str(), 0777 ); } }
    rmdir( p.c_str() );
    unlink( p.c_str() );
    if( a[2] == "dir" ) { mkdir( p.c_str(), 0777 ); }
    else
    {
      std::ofstream o( p );
      if( a[2] == "cfg" ) { for( size_t i = 3; i + 1 < a.size(); i += 2 ) { o << a[i] << " = " << a[i + 1] << "\n"; } }
      if( a[2] == "bad" ) { o << "good = 1\nthis is not a line\n"; }
      if( a[2] == "cam" ) { o << a[3] << " 0 5\n0 " << a[3] << " 6\n0 0 1\n\n1 0 0\n0 1 0\n0 0 1\n\n1 2 3\n\n0\n"; }
    }
    std::string kv = "[";
    if( a[2] == "cfg" ) { for( size_t i = 3; i + 1 < a.size(); i += 2 ) { kv += ( i > 3 ? ",[" : "[" ) + hc::js( a[i] ) + "," + hc::js( a[i + 1] ) + "]"; } }
    e.s( "f", a[1] ).s( "k", a[2] ).raw( "kv", kv + "]" ).s( "v", a[2] == "cam" ? a[3] : "" );
  };
  op["cread"] = [&]( args_t const& a, ev& e ) {
    std::string const p = path( base, a[2] );
    e.s( "f", a[2] );
    handle h( a[3] );
    slots[a[1]] = vital_config_block_file_read( str( p ), h.h );
    e.s( "p", born( slots[a[1]] ) ).raw( "rows", rows( (C) slots[a[1]] ) );
    h.show( e, p == "<null>" ? "" : what_of( [&] { read_config_file( p ); } ) );
  };
  // clookup H file app version prefix merge e
  op["clookup"] = [&]( args_t const& a, ev& e ) {
    std::string const pre = path( base, a[5] );
    e.s( "f", a[2] ).s( "app", a[3] ).s( "ver", a[4] ).s( "pre", a[5] ).t( "m", a[6] == "1" );
    handle h( a[7] );
    slots[a[1]] = vital_config_block_file_read_from_standard_location( str( a[2] ), str( a[3] ), str( a[4] ), str( pre ), a[6] == "1", h.h );
    e.s( "p", born( slots[a[1]] ) );
    h.show( e );
  };
  op["cwrite"] = [&]( args_t const& a, ev& e ) {
    std::string const p = path( base, a[2] );
    e.s( "a", idof( a[1] ) ).s( "f", a[2] );
    handle h( a[3] );
    vital_config_block_file_write( (C) at( a[1] ), str( p ), h.h );
    h.show( e );
  };
  // ---- tracks
  op["tnew"] = [&]( args_t const& a, ev& e ) { slots[a[1]] = vital_track_new(); e.s( "p", born( slots[a[1]] ) ); };
  op["tdestroy"] = [&]( args_t const& a, ev& e ) { e.s( "a", idof( a[1] ) ); handle h( a[2] ); vital_track_destroy( (T) at( a[1] ), h.h ); h.show( e ); };
  op["tsize"] = [&]( args_t const& a, ev& e ) { e.s( "a", idof( a[1] ) ); handle h( a[2] ); e.i( "v", vital_track_size( (T) at( a[1] ), h.h ) ); h.show( e ); };
  op["tempty"] = [&]( args_t const& a, ev& e ) { e.s( "a", idof( a[1] ) ); handle h( a[2] ); e.t( "b", vital_track_empty( (T) at( a[1] ), h.h ) ); h.show( e ); };
  // a set made on the C++ side: states of each track
  op["snative"] = [&]( args_t const& a, ev& e ) {
    std::vector< track_sptr > t;
    std::vector< int > n;
    for( size_t i = 2; i < a.size(); ++i )
    {
      track_sptr x( new kwiver::vital::track() );
      x->set_id( (int) i );
      n.push_back( atoi( a[i].c_str() ) );
      for( int k = 0; k < n.back(); ++k )
      {
        std::shared_ptr< feature_d > f( new feature_d( vector_2d( k, i ) ) );
        x->append( kwiver::vital::track::track_state( k, f, descriptor_sptr() ) );
      }
      t.push_back( x );
    }
    native[a[1]].reset( new simple_track_set( t ) );
    e.s( "p", born( native[a[1]].get() ) ).il( "n", n );
  };
  op["sdrop"] = [&]( args_t const& a, ev& e ) { e.s( "a", id( native[a[1]].get() ) ); native.erase( a[1] ); };
  op["sfrom"] = [&]( args_t const& a, ev& e ) { track_set_sptr s = native[a[2]]; e.s( "a", id( s.get() ) ); slots[a[1]] = vital_trackset_from_sptr( &s ); e.s( "p", id( slots[a[1]] ) ); };
  op["snew"] = [&]( args_t const& a, ev& e ) {
    std::vector< vital_track_t* > t;
    std::vector< std::string > m;
    for( size_t i = 2; i < a.size(); ++i ) { t.push_back( (T) at( a[i] ) ); m.push_back( idof( a[i] ) ); }
    e.sl( "m", m );
    vital_track_t** q = (T*) malloc( sizeof( T ) * ( t.size() + 1 ) );
    std::copy( t.begin(), t.end(), q );
    slots[a[1]] = vital_trackset_new( t.size(), q );
    free( q );
    e.s( "p", born( slots[a[1]] ) );
  };
  op["sdestroy"] = [&]( args_t const& a, ev& e ) { e.s( "a", idof( a[1] ) ); handle h( a[2] ); vital_trackset_destroy( (S) at( a[1] ), h.h ); h.show( e ); };
  op["ssize"] = [&]( args_t const& a, ev& e ) { e.s( "a", idof( a[1] ) ); handle h( a[2] ); e.i( "v", vital_trackset_size( (S) at( a[1] ), h.h ) ); h.show( e ); };
  op["swrite"] = [&]( args_t const& a, ev& e ) {
    std::string const p = path( base, a[2] );
    e.s( "a", idof( a[1] ) ).s( "f", a[2] );
    handle h( a[3] );
    vital_trackset_write_track_file( (S) at( a[1] ), str( p ), h.h );
    h.show( e );
  };
  op["sread"] = [&]( args_t const& a, ev& e ) {
    std::string const p = path( base, a[2] );
    e.s( "f", a[2] );
    handle h( a[3] );
    slots[a[1]] = vital_trackset_new_from_file( str( p ), h.h );
    e.s( "p", born( slots[a[1]] ) );
    h.show( e, p == "<null>" ? "" : what_of( [&] { read_track_file( p ); } ) );
  };
  // ---- cameras
  op["kread"] = [&]( args_t const& a, ev& e ) {
    std::string const p = path( base, a[2] );
    e.s( "f", a[2] );
    handle h( a[3] );
    slots[a[1]] = vital_camera_read_krtd_file( str( p ), h.h );
    e.s( "p", born( slots[a[1]] ) );
    h.show( e, p == "<null>" ? "" : what_of( [&] { read_krtd_file( p ); } ) );
  };
  op["kwrite"] = [&]( args_t const& a, ev& e ) {
    std::string const p = path( base, a[2] );
    e.s( "a", idof( a[1] ) ).s( "f", a[2] );
    handle h( a[3] );
    vital_camera_write_krtd_file( (K) at( a[1] ), str( p ), h.h );
    h.show( e );
  };
  op["kshow"] = [&]( args_t const& a, ev& e ) { std::ifstream i( path( base, a[1] ) ); std::string v; i >> v; e.s( "f", a[1] ).s( "v", v ); };
  op["kdestroy"] = [&]( args_t const& a, ev& e ) { e.s( "a", idof( a[1] ) ); handle h( a[2] ); vital_camera_destroy( (K) at( a[1] ), h.h ); h.show( e ); };
  op["mnew"] = [&]( args_t const& a, ev& e ) { // slot (camera frame)...
    std::vector< unsigned int > f;
    std::vector< vital_camera_t* > k;
    std::string o = "[";
    for( size_t i = 2; i + 1 < a.size(); i += 2 )
    {
      k.push_back( (K) at( a[i] ) );
      f.push_back( (unsigned) strtoul( a[i + 1].c_str(), 0, 10 ) );
      o += ( i > 2 ? ",[" : "[" ) + hc::js( idof( a[i] ) ) + "," + hc::js( a[i + 1] ) + "]";
    }
    e.raw( "m", o + "]" );
    slots[a[1]] = k.empty() ? vital_camera_map_new( 3, 0, 0 ) : vital_camera_map_new( k.size(), &f[0], &k[0] );
    e.s( "p", born( slots[a[1]] ) );
  };
  op["mdestroy"] = [&]( args_t const& a, ev& e ) { e.s( "a", idof( a[1] ) ); handle h( a[2] ); vital_camera_map_destroy( (M) at( a[1] ), h.h ); h.show( e ); };
  op["msize"] = [&]( args_t const& a, ev& e ) { e.s( "a", idof( a[1] ) ); handle h( a[2] ); e.i( "v", vital_camera_map_size( (M) at( a[1] ), h.h ) ); h.show( e ); };
  // mmap M prefix e: the cameras become handles prefix0, prefix1, ...
  op["mmap"] = [&]( args_t const& a, ev& e ) {
    e.s( "a", idof( a[1] ) );
    size_t n = 777;
    unsigned int* f = 0;
    vital_camera_t** k = 0;
    handle h( a[3] );
    vital_camera_map_get_map( (M) at( a[1] ), &n, &f, &k, h.h );
    for( size_t i = 0; i < 4; ++i ) { slots[a[2] + std::to_string( i )] = 0; }
    e.t( "got", n != 777 );
    std::string o = "[";
    if( n != 777 )
    {
      for( size_t i = 0; i < n; ++i )
      {
        slots[a[2] + std::to_string( i )] = k[i];
        o += ( i ? ",[" : "[" ) + hc::js( id( k[i] ) ) + "," + hc::js( std::to_string( f[i] ) ) + "]";
      }
      vital_free_pointer( f );
      vital_free_pointer( k );
    }
    e.raw( "m", o + "]" );
    h.show( e );
  };
  // ---- images
  auto got = [&]( std::string const& s, I i, ev& e ) { slots[s] = i; e.s( "p", born( i ) ).s( "mem", mem( i ) ); };
  op["inew"] = [&]( args_t const& a, ev& e ) { got( a[1], vital_image_new(), e ); };
  op["idim"] = [&]( args_t const& a, ev& e ) {
    int const w = atoi( a[2].c_str() ), h = atoi( a[3].c_str() ), d = atoi( a[4].c_str() );
    I const i = vital_image_new_with_dim( w, h, d, a[5] == "1" );
    if( i && vital_image_size( i ) ) { memset( vital_image_first_pixel( i ), 0, (size_t) w * h * d ); }
    e.i( "w", w ).i( "h", h ).i( "d", d ).t( "il", a[5] == "1" );
    got( a[1], i, e );
  };
  // idata I w h d ws hs ds origin byte...
  op["idata"] = [&]( args_t const& a, ev& e ) {
    std::vector< int > v;
    for( size_t i = 2; i < a.size(); ++i ) { v.push_back( atoi( a[i].c_str() ) ); }
    size_t const n = v.size() - 7;
    unsigned char* b = (unsigned char*) malloc( n );
    std::vector< int > px;
    for( size_t i = 0; i < n; ++i ) { b[i] = (unsigned char) v[7 + i]; px.push_back( b[i] ); }
    I const i = vital_image_new_from_data( b + v[6], v[0], v[1], v[2], v[3], v[4], v[5] );
    free( b ); // the image has a copy
    e.i( "w", v[0] ).i( "h", v[1] ).i( "d", v[2] ).i( "ws", v[3] ).i( "hs", v[4] ).i( "ds", v[5] ).i( "o", v[6] ).il( "px", px );
    got( a[1], i, e );
  };
  op["icopy"] = [&]( args_t const& a, ev& e ) { e.s( "a", idof( a[2] ) ); got( a[1], vital_image_new_from_image( (I) at( a[2] ) ), e ); };
  op["idestroy"] = [&]( args_t const& a, ev& e ) { e.s( "a", idof( a[1] ) ); vital_image_destroy( (I) at( a[1] ) ); };
  op["iput"] = [&]( args_t const& a, ev& e ) {
    I const i = (I) at( a[1] );
    int const x = atoi( a[2].c_str() ), y = atoi( a[3].c_str() ), z = atoi( a[4].c_str() ), v = atoi( a[5].c_str() );
    e.s( "a", idof( a[1] ) ).i( "x", x ).i( "y", y ).i( "z", z ).i( "v", v );
    vital_image_first_pixel( i )[x * vital_image_w_step( i ) + y * vital_image_h_step( i ) + z * vital_image_d_step( i )] = (unsigned char) v;
  };
  op["ishow"] = [&]( args_t const& a, ev& e ) {
    I const i = (I) at( a[1] );
    size_t const w = vital_image_width( i ), h = vital_image_height( i ), d = vital_image_depth( i );
    std::vector< int > p3, p2;
    for( size_t z = 0; z < d; ++z ) { for( size_t y = 0; y < h; ++y ) { for( size_t x = 0; x < w; ++x ) { p3.push_back( vital_image_get_pixel3( i, x, y, z ) ); } } }
    if( d ) { for( size_t y = 0; y < h; ++y ) { for( size_t x = 0; x < w; ++x ) { p2.push_back( vital_image_get_pixel2( i, x, y ) ); } } }
    e.s( "a", idof( a[1] ) ).i( "w", w ).i( "h", h ).i( "d", d ).i( "size", vital_image_size( i ) ).il( "p3", p3 ).il( "p2", p2 );
    e.il( "st", std::vector< long >{ (long) vital_image_w_step( i ), (long) vital_image_h_step( i ), (long) vital_image_d_step( i ) } );
    e.il( "out", std::vector< int >{ vital_image_get_pixel2( i, w, 0 ), vital_image_get_pixel2( i, 0, h ), vital_image_get_pixel3( i, 0, 0, d ), vital_image_get_pixel3( i, w, 0, 0 ), vital_image_get_pixel3( i, 0, h, 0 ) } );
  };
  op["xnew"] = [&]( args_t const& a, ev& e ) { e.s( "a", idof( a[2] ) ); slots[a[1]] = vital_image_container_new_simple( (I) at( a[2] ) ); e.s( "p", born( slots[a[1]] ) ); };
  op["xdup"] = [&]( args_t const& a, ev& e ) { e.s( "a", idof( a[2] ) ); slots[a[1]] = vital_image_container_from_sptr( vital_image_container_to_sptr( (X) at( a[2] ) ) ); e.s( "p", born( slots[a[1]] ) ); };
  op["xdestroy"] = [&]( args_t const& a, ev& e ) { e.s( "a", idof( a[1] ) ); handle h( a[2] ); vital_image_container_destroy( (X) at( a[1] ), h.h ); h.show( e ); };
  op["xdims"] = [&]( args_t const& a, ev& e ) {
    X const x = (X) at( a[1] );
    e.s( "a", idof( a[1] ) ).i( "size", vital_image_container_size( x ) ).i( "w", vital_image_container_width( x ) ).i( "h", vital_image_container_height( x ) ).i( "d", vital_image_container_depth( x ) );
  };
  op["ximg"] = [&]( args_t const& a, ev& e ) { e.s( "a", idof( a[2] ) ); got( a[1], vital_image_container_get_image( (X) at( a[2] ) ), e ); };
  // ---- algorithms
  op["acreate"] = [&]( args_t const& a, ev& e ) { // A type impl
    e.s( "t", a[2] ).s( "n", a[3] );
    slots[a[1]] = api.at( a[2] ).create( str( a[3] ) );
    e.s( "p", born( slots[a[1]] ) );
  };
  op["adestroy"] = [&]( args_t const& a, ev& e ) { e.s( "a", idof( a[1] ) ).s( "t", a[2] ); handle h( a[3] ); api.at( a[2] ).destroy( (A) at( a[1] ), h.h ); h.show( e ); };
  op["anames"] = [&]( args_t const& a, ev& e ) { unsigned int n = 0; char** l = 0; api.at( a[1] ).names( &n, &l ); vlist( e, n, l ); };
  op["atype"] = [&]( args_t const& a, ev& e ) { e.s( "a", idof( a[1] ) ); handle h( a[2] ); vstr( e, vital_algorithm_type_name( (A) at( a[1] ), h.h ) ); h.show( e ); };
  op["aimpl"] = [&]( args_t const& a, ev& e ) { e.s( "a", idof( a[1] ) ); handle h( a[2] ); vstr( e, vital_algorithm_impl_name( (A) at( a[1] ), h.h ) ); h.show( e ); };
  op["agetc"] = [&]( args_t const& a, ev& e ) { e.s( "a", idof( a[2] ) ); handle h( a[3] ); slots[a[1]] = vital_algorithm_get_impl_configuration( (A) at( a[2] ), h.h ); e.s( "p", born( slots[a[1]] ) ); h.show( e ); };
  auto why = []( std::string const& x ) { return x.empty() ? "" : x == "c" ? "refused without an object" : "refused " + x; };
  op["asetc"] = [&]( args_t const& a, ev& e ) { // A C e why
    e.s( "a", idof( a[1] ) ).s( "c", idof( a[2] ) );
    handle h( a[3] );
    vital_algorithm_set_impl_configuration( (A) at( a[1] ), (C) at( a[2] ), h.h );
    h.show( e, why( a[4] ) );
  };
  op["acheck"] = [&]( args_t const& a, ev& e ) { e.s( "a", idof( a[1] ) ).s( "c", idof( a[2] ) ); handle h( a[3] ); e.t( "b", vital_algorithm_check_impl_configuration( (A) at( a[1] ), (C) at( a[2] ), h.h ) ); h.show( e ); };
  op["agett"] = [&]( args_t const& a, ev& e ) { // T name A C e
    e.s( "t", a[1] ).s( "n", a[2] ).s( "a", idof( a[3] ) ).s( "c", idof( a[4] ) );
    handle h( a[5] );
    api.at( a[1] ).getc( str( a[2] ), (A) at( a[3] ), (C) at( a[4] ), h.h );
    vital_string_t* d = vital_config_block_get_description( (C) at( a[4] ), ( a[2] + ":type" ).c_str() );
    e.s( "d", d ? d->str : "" );
    if( d ) { vital_string_free( d ); }
    h.show( e );
  };
  op["asett"] = [&]( args_t const& a, ev& e ) { // T name C A e why
    e.s( "t", a[1] ).s( "n", a[2] ).s( "c", idof( a[3] ) );
    A x = a[4] == "none" ? 0 : (A) at( a[4] );
    e.s( "a", a[4] == "none" ? "0" : idof( a[4] ) );
    handle h( a[5] );
    A const was = x;
    api.at( a[1] ).setc( str( a[2] ), (C) at( a[3] ), &x, h.h );
    if( a[4] == "none" ) { slots[a[7]] = x; } else if( x != was ) { slots[a[4]] = x; }
    e.s( "p", x == was ? id( x ) : born( x ) );
    h.show( e, why( a[6] ) );
  };
  op["acheckt"] = [&]( args_t const& a, ev& e ) { e.s( "t", a[1] ).s( "n", a[2] ).s( "c", idof( a[3] ) ); handle h( a[4] ); e.t( "b", api.at( a[1] ).check( str( a[2] ), (C) at( a[3] ), h.h ) ); h.show( e ); };
  op["aclone"] = [&]( args_t const& a, ev& e ) { e.s( "a", idof( a[2] ) ).s( "t", a[3] ); handle h( a[4] ); slots[a[1]] = api.at( a[3] ).clone( (A) at( a[2] ), h.h ); e.s( "p", born( slots[a[1]] ) ); h.show( e ); };
  op["aconv"] = [&]( args_t const& a, ev& e ) { e.s( "a", idof( a[2] ) ).s( "x", idof( a[3] ) ); handle h( a[4] ); slots[a[1]] = vital_algorithm_convert_image_convert( (A) at( a[2] ), (X) at( a[3] ), h.h ); e.s( "p", born( slots[a[1]] ) ); h.show( e ); };
  op["aload"] = [&]( args_t const& a, ev& e ) {
    e.s( "a", idof( a[2] ) ).s( "f", a[3] );
    handle h( a[4] );
    std::string const p = path( base, a[3] );
    slots[a[1]] = vital_algorithm_image_io_load( (A) at( a[2] ), str( p ), h.h );
    e.s( "p", born( slots[a[1]] ) );
    h.show( e );
    if( !slots[a[1]] ) { e.s( "mem", "" ); }
    // the memory of the new image
    if( slots[a[1]] )
    {
      I const i = vital_image_container_get_image( (X) slots[a[1]] );
      e.s( "mem", mem( i ) );
      vital_image_destroy( i );
    }
  };
  op["asave"] = [&]( args_t const& a, ev& e ) { // A path X e
    e.s( "a", idof( a[1] ) ).s( "f", a[2] ).s( "x", idof( a[3] ) );
    handle h( a[4] );
    last_saw = "";
    std::string const p = path( base, a[2] );
    vital_algorithm_image_io_save( (A) at( a[1] ), str( p ), (X) at( a[3] ), h.h );
    if( last_saw.compare( 0, base.size() + 1, base + "/" ) == 0 ) { last_saw = last_saw.substr( base.size() + 1 ); }
    e.s( "saw", last_saw );
    h.show( e );
  };
  op["atrack"] = [&]( args_t const& a, ev& e ) { // S2 A S frame X mask e
    e.s( "a", idof( a[2] ) ).s( "s", idof( a[3] ) ).s( "fr", a[4] ).s( "x", idof( a[5] ) ).s( "y", a[6] == "-" ? "-" : idof( a[6] ) );
    handle h( a[7] );
    last_saw = "";
    unsigned int const f = (unsigned) strtoul( a[4].c_str(), 0, 10 );
    slots[a[1]] = a[6] == "-" ? vital_algorithm_track_features_track( (A) at( a[2] ), (S) at( a[3] ), f, (X) at( a[5] ), h.h )
                              : vital_algorithm_track_features_track_with_mask( (A) at( a[2] ), (S) at( a[3] ), f, (X) at( a[5] ), (X) at( a[6] ), h.h );
    e.s( "p", born( slots[a[1]] ) ).s( "saw", last_saw );
    h.show( e );
  };
  // ---- strings
  op["str"] = [&]( args_t const& a, ev& e ) { e.s( "v", a[1] ); vstr( e, vital_string_new( a[1].size(), str( a[1] ) ) ); vital_free_pointer( 0 ); vital_free_pointer( malloc( 3 ) ); vital_free_double_pointer( 2, 0 ); void** d = (void**) malloc( 2 * sizeof( void* ) ); d[0] = malloc( 1 ); d[1] = 0; vital_free_double_pointer( 2, d ); };
  for( auto const& o : op )
  {
    auto f = o.second;
    R.ops[o.first] = [f]( args_t const& a, ev& e ) { f( a, e ); e.sl( "freed", freed() ); };
  }
  return R.main( argc, argv );
}
