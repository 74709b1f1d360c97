// Conformance harness: algorithm registry and nested configuration (C18, C19).
#include "hcommon.h"
#include <vital/algo/algorithm.h>
#include <vital/algo/algorithm.txx>
#include <vital/registrar.h>
#include <vital/config/config_block.h>
using namespace kwiver::vital;
using hc::args_t;
using hc::ev;

struct seen { std::string impl; int id; config_block_sptr c; std::vector< std::pair< std::string, std::string > > kv; };
static std::vector< seen > given;

static std::vector< std::pair< std::string, std::string > > entries( config_block_sptr c )
{
  std::vector< std::pair< std::string, std::string > > v;
  for( auto const& k : c->available_values() ) { v.push_back( std::make_pair( k, c->get_value< std::string >( k ) ) ); }
  return v;
}

static std::string kvjs( std::vector< std::pair< std::string, std::string > > const& v )
{
  std::string o = "[";
  for( size_t i = 0; i < v.size(); ++i ) { o += ( i ? ",[" : "[" ) + hc::js( v[i].first ) + "," + hc::js( v[i].second ) + "]"; }
  return o + "]";
}

// what the algorithms of both types have in common
struct body
{
  int id;
  std::string name, descr, p;
  struct slot { std::string name, type; algorithm_sptr a; };
  std::vector< slot > slots;
  body() : id( 0 ) {}
  body( body const& o ) : id( o.id ), name( o.name ), descr( o.descr ), p( o.p ), slots( o.slots )
  {
    for( auto& s : slots ) { if( s.a ) { s.a = s.a->base_clone(); } }
  }
  virtual ~body() {}
  void report( config_block_sptr c ) const
  {
    c->set_value( "p", p );
    for( auto const& s : slots ) { algorithm::get_nested_algo_configuration( s.type, s.name, c, s.a ); }
  }
  void configure( config_block_sptr own, config_block_sptr in )
  {
    given.push_back( seen{ name, id, in, entries( in ) } );
    own->merge_config( in );
    p = own->get_value< std::string >( "p" );
    for( auto& s : slots ) { algorithm::set_nested_algo_configuration( s.type, s.name, own, s.a ); }
  }
  bool accepts( config_block_sptr c ) const
  {
    if( c->get_value< std::string >( "p", "" ) == "bad" ) { return false; }
    for( auto const& s : slots ) { if( !algorithm::check_nested_algo_configuration( s.type, s.name, c ) ) { return false; } }
    return true;
  }
};

struct t1 : public algorithm_def< t1 > { static std::string static_type_name() { return "t1"; } };
struct t2 : public algorithm_def< t2 > { static std::string static_type_name() { return "t2"; } };
INSTANTIATE_ALGORITHM_DEF( t1 )
INSTANTIATE_ALGORITHM_DEF( t2 )

template< class T >
struct impl : public algorithm_impl< impl< T >, T >, public body
{
  virtual std::string impl_name() const { return name; }
  virtual std::string description() const { return descr; }
  virtual config_block_sptr get_configuration() const { auto c = algorithm::get_configuration(); report( c ); return c; }
  virtual void set_configuration( config_block_sptr c ) { configure( get_configuration(), c ); }
  virtual bool check_configuration( config_block_sptr c ) const { return accepts( c ); }
};

int main( int argc, char** argv )
{
  hc::runner R;
  R.fork_each = true;
  std::map< std::string, algorithm_sptr > in;
  std::map< std::string, config_block_sptr > cf;
  auto show = [&]( ev& e, std::string const& h ) {
    auto const& a = in[h];
    e.s( "h", h ).t( "got", !!a );
    if( !a ) { return; }
    body* b = dynamic_cast< body* >( a.get() );
    e.i( "id", b ? b->id : -1 ).s( "impl", a->impl_name() ).s( "ty", a->type_name() ).raw( "c", kvjs( entries( a->get_configuration() ) ) );
  };
  // is the instance of h none that is held elsewhere (by a handle, or by the registry)?
  auto fresh = [&]( std::string const& h ) {
    for( auto const& p : in ) { if( p.first != h && p.second && p.second == in[h] ) { return false; } }
    for( auto const& n : registrar::instance().registered_names< algorithm >() )
    {
      if( registrar::instance().find< algorithm >( n ) == in[h] ) { return false; }
    }
    return true;
  };
  auto reg = [&]( std::string const& t, std::shared_ptr< impl< t1 > > a, std::shared_ptr< impl< t2 > > b ) {
    return t == "t1" ? t1::register_instance( registrar::instance(), a ) : t2::register_instance( registrar::instance(), b );
  };
  // register t impl id descr p slot type slot type ...
  R.ops["register"] = [&]( args_t const& a, ev& e ) {
    auto x = std::make_shared< impl< t1 > >();
    auto y = std::make_shared< impl< t2 > >();
    std::string sl = "[";
    for( body* b : { (body*) x.get(), (body*) y.get() } )
    {
      b->name = a[2];
      b->id = atoi( a[3].c_str() );
      b->descr = a[4];
      b->p = a[5];
      for( size_t i = 6; i + 1 < a.size(); i += 2 )
      {
        b->slots.push_back( body::slot{ a[i], a[i + 1], algorithm_sptr() } );
        if( b == (body*) x.get() ) { sl += ( i > 6 ? ",[" : "[" ) + hc::js( a[i] ) + "," + hc::js( a[i + 1] ) + "]"; }
      }
    }
    e.s( "t", a[1] ).s( "n", a[2] ).i( "id", atoi( a[3].c_str() ) ).s( "d", a[4] ).s( "p", a[5] ).raw( "slots", sl + "]" );
    e.t( "r", reg( a[1], x, y ) );
  };
  R.ops["nothing"] = [&]( args_t const& a, ev& e ) {
    e.s( "t", a[1] ).t( "r", reg( a[1], std::shared_ptr< impl< t1 > >(), std::shared_ptr< impl< t2 > >() ) );
  };
  R.ops["names"] = [&]( args_t const& a, ev& e ) {
    e.s( "t", a[1] ).sl( "v", algorithm::registered_names( a[1] ) ).t( "has", algorithm::has_type_name( a[1] ) );
    bool ty = a[1] == "t1" || a[1] == "t2";
    e.t( "typed", ty ).sl( "tv", a[1] == "t1" ? t1::registered_names() : a[1] == "t2" ? t2::registered_names() : std::vector< std::string >() );
  };
  R.ops["has"] = [&]( args_t const& a, ev& e ) {
    bool v = algorithm::has_impl_name( a[1], a[2] );
    e.s( "t", a[1] ).s( "n", a[2] ).t( "v", v ).t( "tv", a[1] == "t1" ? t1::has_impl_name( a[2] ) : a[1] == "t2" ? t2::has_impl_name( a[2] ) : v );
  };
  // create h t impl base|typed
  R.ops["create"] = [&]( args_t const& a, ev& e ) {
    in[a[1]].reset();
    if( a[4] == "typed" && a[2] == "t1" ) { in[a[1]] = t1::create( a[3] ); }
    else if( a[4] == "typed" && a[2] == "t2" ) { in[a[1]] = t2::create( a[3] ); }
    else { in[a[1]] = algorithm::create( a[2], a[3] ); }
    e.s( "t", a[2] ).s( "n", a[3] );
    show( e, a[1] );
    e.t( "fresh", fresh( a[1] ) );
  };
  R.ops["clone"] = [&]( args_t const& a, ev& e ) {
    algorithm_sptr o = in[a[2]];
    t1* x = dynamic_cast< t1* >( o.get() );
    t2* y = dynamic_cast< t2* >( o.get() );
    if( a[3] == "base" ) { in[a[1]] = o->base_clone(); }
    else if( x ) { in[a[1]] = x->clone(); }
    else { in[a[1]] = y->clone(); }
    e.s( "g", a[2] );
    show( e, a[1] );
    e.t( "fresh", in[a[1]] != o && fresh( a[1] ) );
  };
  R.ops["show"] = [&]( args_t const& a, ev& e ) { show( e, a[1] ); };
  R.ops["impls"] = [&]( args_t const& a, ev& e ) {
    e.s( "t", a[1] ).raw( "c", kvjs( entries( a[1] == "t1" ? t1::get_impl_configurations() : t2::get_impl_configurations() ) ) );
  };
  // conf k key value ...
  R.ops["conf"] = [&]( args_t const& a, ev& e ) {
    auto c = config_block::empty_config();
    for( size_t i = 2; i + 1 < a.size(); i += 2 ) { c->set_value( a[i], a[i + 1] ); }
    cf[a[1]] = c;
    e.s( "k", a[1] ).raw( "v", kvjs( entries( c ) ) );
  };
  R.ops["configure"] = [&]( args_t const& a, ev& e ) {
    in[a[1]]->set_configuration( cf[a[2]] );
    e.s( "k", a[2] );
    show( e, a[1] );
  };
  // nset h t name k base|typed
  R.ops["nset"] = [&]( args_t const& a, ev& e ) {
    algorithm_sptr& x = in[a[1]];
    algorithm* before = x.get();
    algorithm_sptr keep = x;
    given.clear();
    if( a[5] == "typed" && a[2] == "t1" )
    {
      auto y = std::dynamic_pointer_cast< t1 >( x );
      t1::set_nested_algo_configuration( a[3], cf[a[4]], y );
      x = y;
    }
    else if( a[5] == "typed" )
    {
      auto y = std::dynamic_pointer_cast< t2 >( x );
      t2::set_nested_algo_configuration( a[3], cf[a[4]], y );
      x = y;
    }
    else { algorithm::set_nested_algo_configuration( a[2], a[3], cf[a[4]], x ); }
    e.s( "t", a[2] ).s( "n", a[3] ).s( "k", a[4] ).t( "kept", x.get() == before );
    std::string o = "[";
    for( auto const& g : given ) { o += ( o.size() > 1 ? "," : "" ) + ( "{\"impl\":" + hc::js( g.impl ) + ",\"id\":" + std::to_string( g.id ) + ",\"c\":" + kvjs( g.kv ) + "}" ); }
    e.raw( "given", o + "]" ).raw( "after", kvjs( entries( cf[a[4]] ) ) );
    show( e, a[1] );
  };
  R.ops["nget"] = [&]( args_t const& a, ev& e ) {
    auto const& x = in[a[1]];
    auto c = cf[a[4]];
    std::string key = a[3] + ":type";
    if( a[5] == "typed" && a[2] == "t1" ) { t1::get_nested_algo_configuration( a[3], c, std::dynamic_pointer_cast< t1 >( x ) ); }
    else if( a[5] == "typed" ) { t2::get_nested_algo_configuration( a[3], c, std::dynamic_pointer_cast< t2 >( x ) ); }
    else { algorithm::get_nested_algo_configuration( a[2], a[3], c, x ); }
    std::istringstream d( c->get_description( key ) );
    std::vector< std::string > opt;
    for( std::string l; std::getline( d, l ); )
    {
      size_t q = l.find( "- " );
      if( q != std::string::npos && l.find_first_not_of( " \t" ) == q ) { opt.push_back( l.substr( q + 2 ) ); }
    }
    e.s( "h", a[1] ).s( "t", a[2] ).s( "n", a[3] ).s( "k", a[4] ).raw( "c", kvjs( entries( c ) ) ).sl( "options", opt );
  };
  R.ops["ncheck"] = [&]( args_t const& a, ev& e ) {
    bool v = a[4] == "typed" ? a[1] == "t1" ? t1::check_nested_algo_configuration( a[2], cf[a[3]] ) : t2::check_nested_algo_configuration( a[2], cf[a[3]] )
             : algorithm::check_nested_algo_configuration( a[1], a[2], cf[a[3]] );
    e.s( "t", a[1] ).s( "n", a[2] ).s( "k", a[3] ).t( "v", v ).raw( "after", kvjs( entries( cf[a[3]] ) ) );
  };
  return R.main( argc, argv );
}
