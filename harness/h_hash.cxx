// Conformance harness for the bundled hash containers (C34).
#include "hcommon.h"
#include <vector>
#include <list>
#include <memory>
#include <kwsys/hash_map.hxx>
#include <kwsys/hash_set.hxx>
using hc::args_t;
using hc::ev;
static long long N( std::string const& s ) { return strtoll( s.c_str(), 0, 10 ); }

// ---------------------------------------------------------------- hash containers
namespace hsh {
struct boom {};
static long long alive = 0, countdown = -1;
static void copied() { if( countdown >= 0 && countdown-- == 0 ) { throw boom(); } ++alive; }
// keys and values that are counted and whose copies can be made to fail
template< int Which > struct num
{
  int v;
  num( int n = 0 ) : v( n ) { ++alive; }
  num( num const& o ) : v( o.v ) { copied(); }
  num& operator=( num const& o ) { v = o.v; return *this; }
  ~num() { --alive; v = -77; }
  bool operator==( num const& o ) const { return v == o.v; }
};
typedef num< 0 > key;
typedef num< 1 > val;
struct hasher
{
  std::string m;
  hasher( std::string const& s = "id" ) : m( s ) {}
  size_t operator()( key const& k ) const
  {
    if( m == "one" ) { return 7; }
    if( m == "mod3" ) { return k.v % 3; }
    if( m == "eq4" ) { return k.v % 4; }
    if( m == "str" ) { return kwsys::hash< std::string >()( std::to_string( k.v ) ); }
    return kwsys::hash< int >()( k.v );
  }
};
struct same
{
  std::string m;
  same( std::string const& s = "id" ) : m( s ) {}
  bool operator()( key const& a, key const& b ) const { return m == "eq4" ? a.v % 4 == b.v % 4 : a.v == b.v; }
};
typedef std::pair< int, int > pr;
typedef std::vector< pr > prs;
static std::string list( prs const& q )
{
  std::string o = "[";
  for( size_t i = 0; i < q.size(); ++i ) { o += ( i ? ",[" : "[" ) + std::to_string( q[i].first ) + "," + std::to_string( q[i].second ) + "]"; }
  return o + "]";
}
static std::string one( pr const& p ) { return "[" + std::to_string( p.first ) + "," + std::to_string( p.second ) + "]"; }
static pr view( key const& k ) { return pr( k.v, 0 ); }
static pr view( std::pair< const key, val > const& p ) { return pr( p.first.v, p.second.v ); }
template< class V > struct make { static V of( pr const& p ) { return V( key( p.first ), val( p.second ) ); } };
template<> struct make< key > { static key of( pr const& p ) { return key( p.first ); } };
static key const& key_of( key const& k ) { return k; }
static key const& key_of( std::pair< const key, val > const& p ) { return p.first; }

// an iterator that can only be read once
template< class V > struct once
{
  typedef std::input_iterator_tag iterator_category;
  typedef V value_type;
  typedef ptrdiff_t difference_type;
  typedef V const* pointer;
  typedef V const& reference;
  V const* p;
  V const& operator*() const { return *p; }
  once& operator++() { ++p; return *this; }
  once operator++( int ) { once o = *this; ++p; return o; }
  bool operator==( once const& o ) const { return p == o.p; }
  bool operator!=( once const& o ) const { return p != o.p; }
};

struct box
{
  virtual ~box() {}
  virtual prs all() = 0;
  virtual prs call() = 0;
  virtual size_t size() = 0;
  virtual bool empty() = 0;
  virtual void ins( pr const&, bool noresize, ev& ) = 0;
  virtual void insr( std::string const& cat, prs const& ) = 0;
  virtual void find( int k, ev& ) = 0;
  virtual size_t count( int k ) = 0;
  virtual void eqr( int k, ev& ) = 0;
  virtual size_t erk( int k ) = 0;
  virtual int erkof( size_t pos, size_t& n ) = 0;
  virtual pr eri( size_t pos ) = 0;
  virtual prs err( size_t& i, size_t& j, bool past ) = 0;
  virtual box* copy() = 0;
  virtual void asg( box& ) = 0;
  virtual void swap( box&, bool free ) = 0;
  virtual void resize( size_t n, ev& ) = 0;
  virtual void clear() = 0;
  virtual bool eq( box&, bool ne ) = 0;
  virtual int idx( int k ) = 0;
  virtual void set( int k, int v, bool byfind ) = 0;
  virtual void const* hold( size_t pos, std::string const& x, pr& at ) = 0;
  virtual bool held( std::string const& x, void const* p, pr& at ) = 0;
};
template< class C > struct is_map { enum { unique = 0, mapped = 0 }; };
typedef kwsys::hash_set< key, hasher, same > hset;
typedef kwsys::hash_multiset< key, hasher, same > hmset;
typedef kwsys::hash_map< key, val, hasher, same > hmap;
typedef kwsys::hash_multimap< key, val, hasher, same > hmmap;

template< class I > I put_result( I const& i, ev& ) { return i; }
template< class I > I put_result( std::pair< I, bool > const& r, ev& e ) { e.t( "inserted", r.second ); return r.first; }
static int idx_of( hmap& c, int k ) { return c[key( k )].v; }
template< class C > int idx_of( C&, int ) { abort(); }
static void set_in( hmap& c, int k, int v, bool byfind )
{
  hmap::iterator i = c.find( key( k ) );
  if( byfind && i != c.end() ) { i->second.v = v; }
  else { c[key( k )].v = v; }
}
template< class C > void set_in( C&, int, int, bool ) { abort(); }

template< class C > struct of : box
{
  typedef typename C::value_type V;
  typedef typename C::iterator it;
  typedef typename C::const_iterator cit;
  C* c;
  std::map< std::string, it > holds;
  of( C* p ) : c( p ) {}
  ~of() { delete c; }
  C const& k() { return *c; }
  it at( size_t n ) { it i = c->begin(); while( n-- ) { i++; } return i; }
  static std::vector< V > values( prs const& q ) { std::vector< V > o; o.reserve( q.size() ); for( pr const& p : q ) { o.push_back( make< V >::of( p ) ); } return o; }
  prs all() { prs o; for( it i = c->begin(); i != c->end(); ++i ) { o.push_back( view( *i ) ); } return o; }
  prs call() { prs o; for( cit i = k().begin(); i != k().end(); i++ ) { o.push_back( view( *i ) ); } return o; }
  size_t size() { return k().size(); }
  bool empty() { return k().empty(); }
  void ins( pr const& p, bool noresize, ev& e )
  {
    V const v = make< V >::of( p );
    it const i = noresize ? put_result( c->insert_noresize( v ), e ) : put_result( c->insert( v ), e );
    e.raw( "at", one( view( *i ) ) );
  }
  void insr( std::string const& cat, prs const& q )
  {
    std::vector< V > const v = values( q );
    if( cat == "in" ) { once< V > f = { v.data() }, l = { v.data() + v.size() }; c->insert( f, l ); }
    else if( cat == "ptr" ) { c->insert( v.data(), v.data() + v.size() ); }
    else if( cat == "fwd" ) { std::list< V > l; for( auto const& x : v ) { l.push_back( x ); } c->insert( l.begin(), l.end() ); }
    else { C o( *c ); o.clear(); o.insert( v.begin(), v.end() ); c->insert( v.begin(), v.end() ); }
  }
  static box* make_new( std::string const& m, std::string const& how, std::string const& cat, int n, prs const& q )
  {
    if( how == "empty" )
    {
      hasher const hf( m );
      C* p = n < 0 ? new C : m == "id" ? new C( n ) : m == "eq4" ? new C( n, hf, same( m ) ) : new C( n, hf );
      return new of( p );
    }
    std::vector< V > const v = values( q );
    once< V > f = { v.data() }, l = { v.data() + v.size() };
    if( cat == "in" ) { return new of( range( f, l, m, n ) ); }
    return new of( range( v.begin(), v.end(), m, n ) );
  }
  template< class I > static C* range( I f, I l, std::string const& m, int n )
  {
    return n < 0 ? new C( f, l ) : m == "id" ? new C( f, l, n ) : m == "eq4" ? new C( f, l, n, hasher( m ), same( m ) ) : new C( f, l, n, hasher( m ) );
  }
  void find( int n, ev& e )
  {
    it const i = c->find( key( n ) );
    cit const j = k().find( key( n ) );
    e.t( "found", i != c->end() ).raw( "at", i != c->end() ? one( view( *i ) ) : "[]" );
    e.t( "cfound", j != k().end() ).raw( "cat", j != k().end() ? one( view( *j ) ) : "[]" );
  }
  size_t count( int n ) { return k().count( key( n ) ); }
  void eqr( int n, ev& e )
  {
    prs a, b;
    std::pair< it, it > const r = c->equal_range( key( n ) );
    for( it i = r.first; i != r.second && a.size() < 1000; ++i ) { a.push_back( view( *i ) ); }
    std::pair< cit, cit > const s = k().equal_range( key( n ) );
    for( cit i = s.first; i != s.second && b.size() < 1000; ++i ) { b.push_back( view( *i ) ); }
    e.raw( "a", list( a ) ).raw( "ca", list( b ) );
  }
  size_t erk( int n ) { return c->erase( key( n ) ); }
  int erkof( size_t pos, size_t& n ) { it const i = at( pos ); int const k = key_of( *i ).v; n = c->erase( key_of( *i ) ); return k; }
  pr eri( size_t pos ) { it const i = at( pos ); pr const p = view( *i ); c->erase( i ); return p; }
  prs err( size_t& i, size_t& j, bool past )
  {
    prs const q = all();
    i = q.empty() ? 0 : i % ( q.size() + 1 );
    j = past ? q.size() : std::min( q.size(), i + j );
    c->erase( at( i ), at( j ) );
    return q;
  }
  box* copy() { return new of( new C( *c ) ); }
  void asg( box& o ) { *c = *static_cast< of& >( o ).c; }
  void swap( box& b, bool free )
  {
    of& o = static_cast< of& >( b );
    if( free ) { using kwsys::swap; swap( *c, *o.c ); } else { c->swap( *o.c ); }
    holds.swap( o.holds );
  }
  void resize( size_t n, ev& e )
  {
    c->resize( n );
    size_t sum = 0;
    for( size_t i = 0; i < k().bucket_count(); ++i ) { sum += k().elems_in_bucket( i ); }
    e.i( "n", n ).i( "buckets", k().bucket_count() ).i( "inbuckets", sum );
  }
  void clear() { c->clear(); }
  bool eq( box& b, bool ne ) { of& o = static_cast< of& >( b ); return ne ? k() != o.k() : k() == o.k(); }
  int idx( int n ) { return idx_of( *c, n ); }
  void set( int n, int v, bool byfind ) { set_in( *c, n, v, byfind ); }
  void const* hold( size_t pos, std::string const& x, pr& p ) { it const i = at( pos ); holds[x] = i; p = view( *i ); return &*i; }
  bool held( std::string const& x, void const* a, pr& p )
  {
    if( !holds.count( x ) ) { return false; }
    // only an element that is still there can be looked at
    for( it i = c->begin(); i != c->end(); ++i )
    {
      if( &*i == a )
      {
        it const h = holds[x];
        p = view( *h );
        return true;
      }
    }
    return false;
  }
};
static std::map< std::string, std::unique_ptr< box > > cs;
static std::map< std::string, std::string > kinds;
static std::map< std::string, void const* > where;
static box* make_box( std::string const& kind, std::string const& m, std::string const& how, std::string const& cat, int n, prs const& q )
{
  return kind == "set" ? of< hset >::make_new( m, how, cat, n, q ) : kind == "mset" ? of< hmset >::make_new( m, how, cat, n, q )
       : kind == "map" ? of< hmap >::make_new( m, how, cat, n, q ) : of< hmmap >::make_new( m, how, cat, n, q );
}
static prs pairs( args_t const& a, size_t i ) { prs o; for( ; i + 1 < a.size(); i += 2 ) { o.push_back( pr( (int) N( a[i] ), (int) N( a[i + 1] ) ) ); } return o; }
static void family( hc::runner& R )
{
  R.on_reset = [] { cs.clear(); kinds.clear(); where.clear(); countdown = -1; };
  static long long armed = -1;
  auto op = [&R]( char const* name, std::function< void( args_t const&, ev& ) > f ) {
    R.ops[name] = [f]( args_t const& a, ev& e ) {
      bool threw = false;
      long long const base = 0;
      countdown = armed;
      armed = -1;
      try { f( a, e ); }
      catch( boom const& ) { threw = true; }
      countdown = -1;
      e.t( "threw", threw );
      if( a.size() > 1 && cs.count( a[1] ) ) { e.raw( "now", list( cs[a[1]]->all() ) ); }
      else { e.raw( "now", "[]" ); }
      std::string st = "[";
      for( auto const& c : cs )
      {
        prs const q = c.second->all();
        if( q != c.second->call() ) { abort(); }
        st += ( st.size() > 1 ? ",[" : "[" ) + hc::js( c.first ) + "," + std::to_string( c.second->size() ) + "," + ( c.second->empty() ? "true" : "false" ) + "," + list( q ) + "]";
      }
      e.raw( "st", st + "]" ).i( "live", alive - base );
    };
  };
  // new HANDLE KIND MODE HOW CAT N  k v k v ...
  op( "new", []( args_t const& a, ev& e ) {
    prs const q = pairs( a, 7 );
    e.s( "h", a[1] ).s( "kind", a[2] ).s( "m", a[3] ).raw( "a", a[4] == "empty" ? "[]" : list( q ) );
    long long const c = countdown;
    countdown = -1;
    cs.erase( a[1] );
    countdown = c;
    cs[a[1]].reset();
    try { cs[a[1]].reset( make_box( a[2], a[3], a[4], a[5], N( a[6] ), q ) ); kinds[a[1]] = a[2]; }
    catch( ... ) { cs.erase( a[1] ); throw; }
  } );
  op( "ins", []( args_t const& a, ev& e ) { e.s( "h", a[1] ).i( "k", N( a[2] ) ).i( "v", N( a[3] ) ); cs[a[1]]->ins( pr( N( a[2] ), N( a[3] ) ), a[4] == "nr", e ); } );
  op( "insr", []( args_t const& a, ev& e ) { prs const q = pairs( a, 3 ); e.s( "h", a[1] ).raw( "a", list( q ) ); cs[a[1]]->insr( a[2], q ); } );
  op( "find", []( args_t const& a, ev& e ) { e.s( "h", a[1] ).i( "k", N( a[2] ) ); cs[a[1]]->find( N( a[2] ), e ); } );
  op( "count", []( args_t const& a, ev& e ) { e.s( "h", a[1] ).i( "k", N( a[2] ) ).i( "n", cs[a[1]]->count( N( a[2] ) ) ); } );
  op( "eqr", []( args_t const& a, ev& e ) { e.s( "h", a[1] ).i( "k", N( a[2] ) ); cs[a[1]]->eqr( N( a[2] ), e ); } );
  op( "erk", []( args_t const& a, ev& e ) { e.s( "h", a[1] ).i( "k", N( a[2] ) ).i( "n", cs[a[1]]->erk( N( a[2] ) ) ); } );
  op( "erkof", []( args_t const& a, ev& e ) {
    size_t const n = cs[a[1]]->size();
    size_t got = 0;
    int k = -1; // of nothing, there is none
    if( n ) { k = cs[a[1]]->erkof( N( a[2] ) % n, got ); }
    e.s( "h", a[1] ).i( "k", k ).i( "n", got );
  } );
  op( "eri", []( args_t const& a, ev& e ) {
    size_t const n = cs[a[1]]->size();
    e.s( "h", a[1] ).t( "none", n == 0 );
    if( n ) { e.raw( "at", one( cs[a[1]]->eri( N( a[2] ) % n ) ) ); }
  } );
  op( "err", []( args_t const& a, ev& e ) {
    size_t i = N( a[2] ), j = N( a[3] );
    prs const q = cs[a[1]]->err( i, j, a[4] == "end" );
    e.s( "h", a[1] ).raw( "before", list( q ) ).i( "i", i ).i( "j", j );
  } );
  op( "copy", []( args_t const& a, ev& e ) {
    e.s( "h", a[1] ).s( "g", a[2] );
    std::unique_ptr< box > n;
    try { n.reset( cs[a[2]]->copy() ); }
    catch( ... ) { cs.erase( a[1] ); throw; }
    cs[a[1]] = std::move( n );
    kinds[a[1]] = kinds[a[2]];
    e.t( "eq", cs[a[1]]->eq( *cs[a[2]], false ) && !cs[a[1]]->eq( *cs[a[2]], true ) );
  } );
  op( "asg", []( args_t const& a, ev& e ) {
    e.s( "h", a[1] ).s( "g", a[2] );
    cs[a[1]]->asg( *cs[a[2]] );
    e.t( "eq", cs[a[1]]->eq( *cs[a[2]], false ) );
  } );
  op( "swap", []( args_t const& a, ev& e ) { e.s( "h", a[1] ).s( "g", a[2] ); cs[a[1]]->swap( *cs[a[2]], a[3] == "free" ); } );
  op( "resize", []( args_t const& a, ev& e ) { e.s( "h", a[1] ); cs[a[1]]->resize( N( a[2] ), e ); } );
  op( "clear", []( args_t const& a, ev& e ) { e.s( "h", a[1] ); cs[a[1]]->clear(); } );
  op( "drop", []( args_t const& a, ev& e ) { e.s( "h", a[1] ); cs.erase( a[1] ); } );
  op( "eqv", []( args_t const& a, ev& e ) { e.s( "h", a[1] ).s( "g", a[2] ).t( "eq", cs[a[1]]->eq( *cs[a[2]], false ) ).t( "ne", cs[a[1]]->eq( *cs[a[2]], true ) ); } );
  op( "idx", []( args_t const& a, ev& e ) { e.s( "h", a[1] ).i( "k", N( a[2] ) ); int const v = cs[a[1]]->idx( N( a[2] ) ); e.i( "v", v ); } );
  op( "set", []( args_t const& a, ev& e ) { e.s( "h", a[1] ).i( "k", N( a[2] ) ).i( "v", N( a[3] ) ); cs[a[1]]->set( N( a[2] ), N( a[3] ), a[4] == "find" ); } );
  op( "hold", []( args_t const& a, ev& e ) {
    size_t const n = cs[a[1]]->size();
    e.s( "h", a[1] ).s( "x", a[3] ).t( "none", n == 0 );
    pr p;
    if( n ) { where[a[3]] = cs[a[1]]->hold( N( a[2] ) % n, a[3], p ); e.raw( "at", one( p ) ); }
  } );
  op( "held", []( args_t const& a, ev& e ) {
    pr p;
    std::string in;
    for( auto const& c : cs ) { if( c.second->held( a[1], where[a[1]], p ) ) { in = c.first; } }
    e.s( "x", a[1] ).t( "gone", in.empty() ).s( "h", in ).raw( "at", one( p ) );
  } );
  R.ops["fault"] = []( args_t const& a, ev& e ) {
    armed = N( a[1] );
    std::string st = "[";
    for( auto const& c : cs ) { st += ( st.size() > 1 ? ",[" : "[" ) + hc::js( c.first ) + "," + std::to_string( c.second->size() ) + "," + ( c.second->empty() ? "true" : "false" ) + "," + list( c.second->all() ) + "]"; }
    e.raw( "st", st + "]" ).i( "live", alive );
  };
}
} // namespace hsh

int main( int argc, char** argv )
{
  hc::runner R;
  hsh::family( R );
  return R.main( argc, argv );
}
