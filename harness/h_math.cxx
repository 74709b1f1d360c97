// Conformance harness: homographies between frames (C26), sparse matrix enumeration (C27),
// covariances (C36), value types (C38).
#include "hcommon.h"
#include <cmath>
#include <climits>
#include <limits>
#include <memory>
#include <vital/config/config_block.h>
#include <vital/exceptions/math.h>
#include <vital/types/descriptor.h>
#include <vital/types/feature.h>
#include <vital/types/geo_lat_lon.h>
#include <vital/types/homography_f2f.h>
#include <vital/types/homography_f2w.h>
#include <vital/types/landmark.h>
#include <vital/types/timestamp_config.h>
#include <vital/io/eigen_io.h>
#include <vital/util/enumerate_matrix.h>
using namespace kwiver::vital;
using hc::args_t;
using hc::ev;
typedef std::vector< long long > nums;

static long long N( std::string const& s ) { return strtoll( s.c_str(), 0, 10 ); }
static nums rest( args_t const& a, size_t i )
{
  nums o;
  for( ; i < a.size(); ++i ) { o.push_back( N( a[i] ) ); }
  return o;
}
static std::string list( nums const& v )
{
  std::string o = "[";
  for( auto x : v ) { o += ( o.size() > 1 ? "," : "" ) + std::to_string( x ); }
  return o + "]";
}

// ---------------------------------------------------------------- homographies
struct hobj
{
  std::string k, t;
  homography_sptr m;
  std::shared_ptr< f2f_homography > f;
  std::shared_ptr< f2w_homography > w;
  homography_sptr hom() const { return m ? m : f ? f->homography() : w->homography(); }
};
// numbers as integers, not all of them even, and a power of two
static void dyadic( ev& e, std::vector< double > v )
{
  int x = INT_MAX;
  for( double d : v )
  {
    if( d == 0 || !std::isfinite( d ) ) { continue; }
    int p;
    double f = frexp( d, &p );
    while( f != floor( f ) ) { f *= 2; --p; }
    x = std::min( x, p );
  }
  if( x == INT_MAX ) { x = 0; }
  nums o;
  for( double d : v ) { double const q = ldexp( d, -x ); o.push_back( std::isfinite( q ) && fabs( q ) < 1e9 ? (long long) q : 2000000001 ); }
  e.raw( "m", list( o ) ).i( "e", x );
}
static void show( ev& e, std::string const& h, hobj const& o )
{
  e.s( "h", h ).s( "k", o.k ).s( "err", "" );
  auto const m = o.hom()->matrix();
  std::vector< double > v;
  for( int i = 0; i < 9; ++i ) { v.push_back( m( i / 3, i % 3 ) ); }
  dyadic( e, v );
  if( o.f ) { e.s( "from", std::to_string( o.f->from_id() ) ).s( "to", std::to_string( o.f->to_id() ) ); }
  if( o.w ) { e.s( "from", std::to_string( o.w->frame_id() ) ); }
}
template < typename T > static Eigen::Matrix< T, 3, 3 > mat( nums const& v, int x )
{
  Eigen::Matrix< T, 3, 3 > m;
  for( int i = 0; i < 9; ++i ) { m( i / 3, i % 3 ) = ldexp( (T) v[i], x ); }
  return m;
}
static void caught( ev& e, std::function< void() > f )
{
  try { f(); }
  catch( invalid_matrix_operation const& ) { e.s( "err", "invalid_matrix_operation" ); }
  catch( non_invertible_matrix const& ) { e.s( "err", "non_invertible_matrix" ); }
  catch( point_maps_to_infinity const& ) { e.s( "err", "point_maps_to_infinity" ); }
  catch( std::exception const& x ) { e.s( "err", x.what() ); }
}
typedef homography_< double > hd;
typedef homography_< float > hf;
static void homographies( hc::runner& R )
{
  static std::map< std::string, hobj > os;
  auto keep = [&]( ev& e, std::string const& h, hobj const& o ) { os[h] = o; show( e, h, o ); };
  auto prior = R.on_reset;
  R.on_reset = [=] { if( prior ) { prior(); } os.clear(); };
  auto make = [=]( std::string const& t, nums const& v, int x ) { return t == "d" ? homography_sptr( new hd( mat< double >( v, x ) ) ) : homography_sptr( new hf( mat< float >( v, x ) ) ); };
  R.ops["mat"] = [=]( args_t const& a, ev& e ) {
    nums v = rest( a, 4 );
    e.raw( "a", list( v ) ).i( "x", N( a[3] ) );
    keep( e, a[1], hobj{ "m", a[2], make( a[2], v, N( a[3] ) ), nullptr, nullptr } );
  };
  R.ops["ident"] = [=]( args_t const& a, ev& e ) { keep( e, a[1], hobj{ "m", a[2], a[2] == "d" ? homography_sptr( new hd() ) : homography_sptr( new hf() ), nullptr, nullptr } ); };
  R.ops["fident"] = [=]( args_t const& a, ev& e ) { e.s( "f", a[2] ); keep( e, a[1], hobj{ "f", "d", nullptr, std::make_shared< f2f_homography >( frame_id_t( N( a[2] ) ) ), nullptr } ); };
  R.ops["wident"] = [=]( args_t const& a, ev& e ) { e.s( "f", a[2] ); keep( e, a[1], hobj{ "w", "d", nullptr, nullptr, std::make_shared< f2w_homography >( frame_id_t( N( a[2] ) ) ) } ); };
  // h type via from to exponent elements
  R.ops["f2f"] = [=]( args_t const& a, ev& e ) {
    nums v = rest( a, 7 );
    int x = N( a[6] );
    e.raw( "a", list( v ) ).i( "x", x ).s( "f", a[4] ).s( "t", a[5] );
    frame_id_t const p = N( a[4] ), q = N( a[5] );
    std::shared_ptr< f2f_homography > f;
    if( a[3] == "s" ) { f = std::make_shared< f2f_homography >( make( a[2], v, x ), p, q ); }
    else if( a[2] == "d" ) { f = std::make_shared< f2f_homography >( mat< double >( v, x ), p, q ); }
    else { f = std::make_shared< f2f_homography >( mat< float >( v, x ), p, q ); }
    keep( e, a[1], hobj{ "f", a[2], nullptr, f, nullptr } );
  };
  R.ops["f2fof"] = [=]( args_t const& a, ev& e ) {
    e.s( "g", a[2] ).s( "f", a[3] ).s( "t", a[4] );
    keep( e, a[1], hobj{ "f", os[a[2]].t, nullptr, std::make_shared< f2f_homography >( os[a[2]].m, N( a[3] ), N( a[4] ) ), nullptr } );
  };
  R.ops["f2wof"] = [=]( args_t const& a, ev& e ) {
    e.s( "g", a[2] ).s( "f", a[3] );
    keep( e, a[1], hobj{ "w", os[a[2]].t, nullptr, nullptr, std::make_shared< f2w_homography >( os[a[2]].m, N( a[3] ) ) } );
  };
  R.ops["copy"] = [=]( args_t const& a, ev& e ) {
    hobj const g = os[a[2]];
    hobj o{ g.k, g.t, nullptr, nullptr, nullptr };
    if( g.m && g.t == "d" ) { o.m = std::make_shared< hd >( *std::static_pointer_cast< hd >( g.m ) ); }
    else if( g.m ) { o.m = std::make_shared< hf >( *std::static_pointer_cast< hf >( g.m ) ); }
    if( g.f ) { o.f = std::make_shared< f2f_homography >( *g.f ); }
    if( g.w ) { o.w = std::make_shared< f2w_homography >( *g.w ); }
    e.s( "g", a[2] );
    keep( e, a[1], o );
  };
  R.ops["assign"] = [=]( args_t const& a, ev& e ) {
    hobj const g = os[a[2]];
    hobj& o = os[a[1]];
    e.s( "g", a[2] );
    if( g.m && o.m && g.t == o.t )
    {
      if( g.t == "d" ) { *std::static_pointer_cast< hd >( o.m ) = *std::static_pointer_cast< hd >( g.m ); }
      else { *std::static_pointer_cast< hf >( o.m ) = *std::static_pointer_cast< hf >( g.m ); }
    }
    else if( g.f && o.f ) { *o.f = *g.f; o.t = g.t; }
    else if( g.w && o.w ) { *o.w = *g.w; o.t = g.t; }
    show( e, a[1], o );
  };
  R.ops["clone"] = [=]( args_t const& a, ev& e ) { e.s( "g", a[2] ); keep( e, a[1], hobj{ "m", os[a[2]].t, os[a[2]].m->clone(), nullptr, nullptr } ); };
  // to the other precision, from the type or from its base
  R.ops["conv"] = [=]( args_t const& a, ev& e ) {
    hobj const g = os[a[2]];
    hobj o{ "m", g.t == "d" ? "f" : "d", nullptr, nullptr, nullptr };
    bool const base = a[3] == "base";
    if( g.t == "d" ) { o.m = base ? std::make_shared< hf >( *g.m ) : std::make_shared< hf >( *std::static_pointer_cast< hd >( g.m ) ); }
    else { o.m = base ? std::make_shared< hd >( *g.m ) : std::make_shared< hd >( *std::static_pointer_cast< hf >( g.m ) ); }
    e.s( "g", a[2] );
    keep( e, a[1], o );
  };
  R.ops["mul"] = [=]( args_t const& a, ev& e ) {
    hobj const x = os[a[2]], y = os[a[3]];
    e.s( "a", a[2] ).s( "b", a[3] );
    caught( e, [&] {
      hobj o{ x.k, x.t, nullptr, nullptr, nullptr };
      if( x.f ) { o.f = std::make_shared< f2f_homography >( *x.f * *y.f ); o.t = "d"; }
      else if( x.t == "d" ) { o.m = std::make_shared< hd >( *std::static_pointer_cast< hd >( x.m ) * *std::static_pointer_cast< hd >( y.m ) ); }
      else { o.m = std::make_shared< hf >( *std::static_pointer_cast< hf >( x.m ) * *std::static_pointer_cast< hf >( y.m ) ); }
      keep( e, a[1], o );
    } );
  };
  R.ops["inv"] = [=]( args_t const& a, ev& e ) {
    hobj const g = os[a[2]];
    e.s( "g", a[2] );
    caught( e, [&] {
      hobj o{ g.k, g.t, nullptr, nullptr, nullptr };
      if( g.f ) { o.f = std::make_shared< f2f_homography >( g.f->inverse() ); } else { o.m = g.m->inverse(); }
      keep( e, a[1], o );
    } );
  };
  R.ops["norm"] = [=]( args_t const& a, ev& e ) { e.s( "g", a[2] ); keep( e, a[1], hobj{ "m", os[a[2]].t, os[a[2]].hom()->normalize(), nullptr, nullptr } ); };
  R.ops["set"] = [=]( args_t const& a, ev& e ) {
    hobj& o = os[a[1]];
    int const i = N( a[2] ) - 1;
    e.i( "i", i + 1 ).i( "v", N( a[3] ) );
    if( auto d = std::dynamic_pointer_cast< hd >( o.hom() ) ) { d->get_matrix()( i / 3, i % 3 ) = N( a[3] ); }
    else if( auto f = std::dynamic_pointer_cast< hf >( o.hom() ) ) { f->get_matrix()( i / 3, i % 3 ) = N( a[3] ); }
    show( e, a[1], o );
  };
  R.ops["show"] = [=]( args_t const& a, ev& e ) { show( e, a[1], os[a[1]] ); };
  R.ops["map"] = [=]( args_t const& a, ev& e ) {
    hobj const& g = os[a[1]];
    e.s( "g", a[1] ).i( "x", N( a[2] ) ).i( "y", N( a[3] ) );
    caught( e, [&] {
      vector_2d q;
      vector_2d const p( N( a[2] ), N( a[3] ) );
      if( a[4] == "point" && g.t == "d" ) { q = std::static_pointer_cast< hd >( g.hom() )->map_point( p ); }
      else if( a[4] == "point" ) { q = std::static_pointer_cast< hf >( g.hom() )->map_point( p.cast< float >() ).cast< double >(); }
      else { q = g.hom()->map( p ); }
      e.s( "err", "" );
      dyadic( e, { q[0], q[1] } );
    } );
  };
}

// ---------------------------------------------------------------- covariances
struct cbase
{
  virtual ~cbase() {}
  virtual void show( ev& e ) const = 0;
  virtual std::shared_ptr< cbase > copy() const = 0;
  virtual void assign( cbase const& o ) = 0;
  virtual std::shared_ptr< cbase > conv() const = 0;
  virtual std::shared_ptr< cbase > rebuild() const = 0;
  virtual void set( int i, int j, double v ) = 0;
};
template < typename T > struct other { typedef float type; static char const* name() { return "d"; } };
template <> struct other< float > { typedef double type; static char const* name() { return "f"; } };
static long long halves( double d ) { d *= 2; return std::isfinite( d ) && fabs( d ) < 1e9 && d == floor( d ) ? (long long) d : 2000000001; }
template < unsigned M, typename T > struct cov : cbase
{
  covariance_< M, T > c;
  cov() {}
  explicit cov( covariance_< M, T > const& x ) : c( x ) {}
  void show( ev& e ) const override
  {
    nums el, full;
    Eigen::Matrix< T, M, M > const m = c;
    for( unsigned i = 0; i < M; ++i ) { for( unsigned j = 0; j < M; ++j ) { el.push_back( halves( c( i, j ) ) ); full.push_back( halves( m( i, j ) ) ); } }
    e.s( "t", other< T >::name() ).raw( "el", list( el ) ).raw( "full", list( full ) );
  }
  std::shared_ptr< cbase > copy() const override { return std::make_shared< cov >( covariance_< M, T >( c ) ); }
  void assign( cbase const& o ) override { c = dynamic_cast< cov const& >( o ).c; }
  std::shared_ptr< cbase > conv() const override { typedef typename other< T >::type U; return std::make_shared< cov< M, U > >( covariance_< M, U >( c ) ); }
  std::shared_ptr< cbase > rebuild() const override { Eigen::Matrix< T, M, M > const m = c; return std::make_shared< cov >( covariance_< M, T >( m ) ); }
  void set( int i, int j, double v ) override { c( i, j ) = v; }
};
template < typename T > static std::shared_ptr< cbase > cov_of( int n, std::function< double( int, int ) > f, bool scalar )
{
#define COV( M ) if( n == M ) { if( scalar ) { return std::make_shared< cov< M, T > >( covariance_< M, T >( T( f( 0, 0 ) ) ) ); } \
    Eigen::Matrix< T, M, M > m; for( int i = 0; i < M; ++i ) { for( int j = 0; j < M; ++j ) { m( i, j ) = f( i, j ); } } \
    return std::make_shared< cov< M, T > >( covariance_< M, T >( m ) ); }
  COV( 1 ) COV( 2 ) COV( 3 ) COV( 4 ) COV( 6 )
  return nullptr;
}
static void covariances( hc::runner& R )
{
  static std::map< std::string, std::shared_ptr< cbase > > os;
  auto prior = R.on_reset;
  R.on_reset = [=] { if( prior ) { prior(); } os.clear(); };
  auto keep = [=]( ev& e, std::string const& h, std::shared_ptr< cbase > o ) { os[h] = o; e.s( "h", h ); o->show( e ); };
  R.ops["mat"] = [=]( args_t const& a, ev& e ) {
    int const n = N( a[2] );
    nums v = rest( a, 4 );
    e.i( "n", n ).raw( "a", list( v ) );
    auto f = [&]( int i, int j ) { return v[i * n + j] / 2.; };
    keep( e, a[1], a[3] == "d" ? cov_of< double >( n, f, false ) : cov_of< float >( n, f, false ) );
  };
  R.ops["scalar"] = [=]( args_t const& a, ev& e ) {
    int const n = N( a[2] );
    e.i( "n", n ).i( "v", N( a[4] ) );
    auto f = [&]( int, int ) { return N( a[4] ) / 2.; };
    keep( e, a[1], a[3] == "d" ? cov_of< double >( n, f, true ) : cov_of< float >( n, f, true ) );
  };
  R.ops["copy"] = [=]( args_t const& a, ev& e ) { e.s( "g", a[2] ); keep( e, a[1], os[a[2]]->copy() ); };
  R.ops["assign"] = [=]( args_t const& a, ev& e ) { e.s( "g", a[2] ).s( "h", a[1] ); os[a[1]]->assign( *os[a[2]] ); os[a[1]]->show( e ); };
  R.ops["conv"] = [=]( args_t const& a, ev& e ) { e.s( "g", a[2] ); keep( e, a[1], os[a[2]]->conv() ); };
  R.ops["rebuild"] = [=]( args_t const& a, ev& e ) { e.s( "g", a[2] ); keep( e, a[1], os[a[2]]->rebuild() ); };
  R.ops["set"] = [=]( args_t const& a, ev& e ) {
    e.s( "h", a[1] ).i( "i", N( a[2] ) ).i( "j", N( a[3] ) ).i( "v", N( a[4] ) );
    os[a[1]]->set( N( a[2] ) - 1, N( a[3] ) - 1, N( a[4] ) / 2. );
    os[a[1]]->show( e );
  };
  R.ops["show"] = [=]( args_t const& a, ev& e ) { e.s( "h", a[1] ); os[a[1]]->show( e ); };
}

// ---------------------------------------------------------------- sparse matrices
struct sbase
{
  virtual ~sbase() {}
  virtual void put( int r, int c, int v ) = 0;
  virtual void compress() = 0;
  virtual void enumerate_to( ev& e ) const = 0;
  virtual void cmp( sbase const& o, ev& e ) const = 0;
};
template < int Options, typename I > struct smat : sbase
{
  typedef Eigen::SparseMatrix< double, Options, I > M;
  typedef typename sparse_matrix_enumerator< double, Options, I >::iterator It;
  M m;
  smat( int r, int c ) : m( r, c ) {}
  void put( int r, int c, int v ) override { m.coeffRef( r, c ) = v; }
  void compress() override { m.makeCompressed(); }
  static std::string row( nums const& v ) { return list( v ); }
  void enumerate_to( ev& e ) const override
  {
    std::string a, b;
    for( auto const& cell : enumerate( m ) )
    {
      if( a.size() > 100000 ) { a += ",\"more\""; break; }
      a += ( a.empty() ? "" : "," ) + list( { (long long) cell.row() + 1, (long long) cell.col() + 1, (long long) cell.value() } );
    }
    // once more, through a copied iterator and one enumerator
    auto const en = enumerate( m );
    It const end = en.end();
    size_t k = 0;
    for( It i( en.begin() ); i != end && k < 10000; ++k )
    {
      It const j( i );
      auto const cell = *j;
      b += ( b.empty() ? "" : "," ) + list( { (long long) cell.row() + 1, (long long) cell.col() + 1, (long long) cell.value() } );
      ++i;
    }
    e.raw( "seen", "[" + a + "]" ).raw( "again", "[" + b + "]" );
  }
  std::vector< std::unique_ptr< It > > all() const
  {
    std::vector< std::unique_ptr< It > > v;
    auto const en = enumerate( m );
    It i( en.begin() ), end( en.end() );
    while( i != end && v.size() < 1000 ) { v.push_back( std::unique_ptr< It >( new It( i ) ) ); ++i; }
    v.push_back( std::unique_ptr< It >( new It( i ) ) );
    return v;
  }
  void cmp( sbase const& o, ev& e ) const override
  {
    auto const* q = dynamic_cast< smat const* >( &o );
    auto const x = all(), y = q->all();
    std::string s;
    bool ok = true;
    for( size_t i = 0; i < x.size(); ++i )
    {
      for( size_t j = 0; j < y.size(); ++j )
      {
        bool const eq = *x[i] == *y[j];
        if( eq ) { s += ( s.empty() ? "" : "," ) + list( { (long long) i + 1, (long long) j + 1 } ); }
        ok = ok && ( *x[i] != *y[j] ) == !eq && ( *y[j] == *x[i] ) == eq;
      }
    }
    // the default iterator is an end
    ok = ok && It() == *x.back() && ( x.size() == 1 || It() != *x[0] );
    e.raw( "eq", "[" + s + "]" ).i( "n", x.size() ).i( "m", y.size() ).t( "consistent", ok );
  }
};
static void sparse( hc::runner& R )
{
  static std::map< std::string, std::shared_ptr< sbase > > os;
  auto prior = R.on_reset;
  R.on_reset = [=] { if( prior ) { prior(); } os.clear(); };
  // h by-rows index-type compressed rows cols (row col value)...
  R.ops["mat"] = [=]( args_t const& a, ev& e ) {
    bool const byrow = a[2] == "1";
    int const r = N( a[5] ), c = N( a[6] );
    std::shared_ptr< sbase > m;
    if( byrow && a[3] == "i" ) { m = std::make_shared< smat< Eigen::RowMajor, int > >( r, c ); }
    else if( byrow ) { m = std::make_shared< smat< Eigen::RowMajor, long > >( r, c ); }
    else if( a[3] == "i" ) { m = std::make_shared< smat< Eigen::ColMajor, int > >( r, c ); }
    else { m = std::make_shared< smat< Eigen::ColMajor, long > >( r, c ); }
    std::string s;
    nums v = rest( a, 7 );
    for( size_t i = 0; i + 2 < v.size(); i += 3 )
    {
      m->put( v[i], v[i + 1], v[i + 2] );
      s += ( s.empty() ? "" : "," ) + list( { v[i] + 1, v[i + 1] + 1, v[i + 2] } );
    }
    if( a[4] == "1" ) { m->compress(); }
    os[a[1]] = m;
    e.s( "h", a[1] ).t( "byrow", byrow ).i( "rows", r ).i( "cols", c ).raw( "a", "[" + s + "]" );
  };
  R.ops["put"] = [=]( args_t const& a, ev& e ) { e.s( "h", a[1] ).i( "r", N( a[2] ) + 1 ).i( "c", N( a[3] ) + 1 ).i( "v", N( a[4] ) ); os[a[1]]->put( N( a[2] ), N( a[3] ), N( a[4] ) ); };
  R.ops["compress"] = [=]( args_t const& a, ev& e ) { e.s( "h", a[1] ); os[a[1]]->compress(); };
  R.ops["enum"] = [=]( args_t const& a, ev& e ) { e.s( "h", a[1] ); os[a[1]]->enumerate_to( e ); };
  R.ops["cmp"] = [=]( args_t const& a, ev& e ) { e.s( "h", a[1] ).s( "g", a[2] ); os[a[1]]->cmp( *os[a[2]], e ); };
}

// ---------------------------------------------------------------- value types
struct vobj
{
  std::string k, t;
  rgb_color c;
  std::shared_ptr< feature > f;
  std::shared_ptr< landmark > l;
  geo_lat_lon g;
  std::shared_ptr< descriptor > d;
  std::function< std::shared_ptr< descriptor >() > dcopy;
  std::function< void( size_t, long long ) > dset;
};
static long long quarters( double d ) { d *= 4; return std::isfinite( d ) && fabs( d ) < 1e9 && d == floor( d ) ? (long long) d : 2000000001; }
template < int M > static nums cov_nums( covariance_< M, double > const& c )
{
  nums o;
  for( int i = 0; i < M; ++i ) { for( int j = 0; j < M; ++j ) { o.push_back( quarters( c( i, j ) ) ); } }
  return o;
}
template < int M, typename T > static nums cov_own( covariance_< M, T > const& c )
{
  nums o;
  for( int i = 0; i < M; ++i ) { for( int j = 0; j < M; ++j ) { o.push_back( quarters( c( i, j ) ) ); } }
  return o;
}
static void add( nums& o, rgb_color const& c ) { o.push_back( c.r ); o.push_back( c.g ); o.push_back( c.b ); }
template < typename T > static void own( ev& e, feature_< T > const& f )
{
  nums o = { quarters( f.get_loc()[0] ), quarters( f.get_loc()[1] ), quarters( f.get_magnitude() ), quarters( f.get_scale() ), quarters( f.get_angle() ) };
  add( o, f.get_color() );
  e.raw( "o", list( o ) ).raw( "c", list( cov_own< 2, T >( f.get_covar() ) ) );
}
template < typename T > static void own( ev& e, landmark_< T > const& f )
{
  nums o;
  for( int i = 0; i < 3; ++i ) { o.push_back( quarters( f.get_loc()[i] ) ); }
  o.push_back( quarters( f.get_scale() ) );
  for( int i = 0; i < 3; ++i ) { o.push_back( quarters( f.get_normal()[i] ) ); }
  add( o, f.get_color() );
  o.push_back( f.get_observations() );
  e.raw( "o", list( o ) ).raw( "c", list( cov_own< 3, T >( f.get_covar() ) ) );
}
typedef feature_< double > fd;
typedef feature_< float > ff;
typedef landmark_< double > ld;
typedef landmark_< float > lf;
static void vshow( ev& e, std::string const& h, vobj const& x )
{
  e.s( "h", h ).s( "k", x.k ).s( "t", x.t );
  if( x.k == "color" ) { nums o; add( o, x.c ); e.raw( "o", list( o ) ).raw( "c", "[]" ); }
  else if( x.k == "geo" ) { e.raw( "o", list( { quarters( x.g.get_latitude() ), quarters( x.g.get_longitude() ) } ) ).raw( "c", "[]" ).t( "valid", x.g.is_valid() ).t( "empty", x.g.is_empty() ); }
  else if( x.k == "feat" )
  {
    if( x.t == "d" ) { own( e, dynamic_cast< fd const& >( *x.f ) ); } else { own( e, dynamic_cast< ff const& >( *x.f ) ); }
    nums o = { quarters( x.f->loc()[0] ), quarters( x.f->loc()[1] ), quarters( x.f->magnitude() ), quarters( x.f->scale() ), quarters( x.f->angle() ) };
    add( o, x.f->color() );
    e.raw( "base", list( o ) ).raw( "cbase", list( cov_nums< 2 >( x.f->covar() ) ) );
  }
  else if( x.k == "lm" )
  {
    if( x.t == "d" ) { own( e, dynamic_cast< ld const& >( *x.l ) ); } else { own( e, dynamic_cast< lf const& >( *x.l ) ); }
    nums o;
    for( int i = 0; i < 3; ++i ) { o.push_back( quarters( x.l->loc()[i] ) ); }
    o.push_back( quarters( x.l->scale() ) );
    for( int i = 0; i < 3; ++i ) { o.push_back( quarters( x.l->normal()[i] ) ); }
    add( o, x.l->color() );
    o.push_back( x.l->observations() );
    e.raw( "base", list( o ) ).raw( "cbase", list( cov_nums< 3 >( x.l->covar() ) ) );
  }
  else
  {
    nums o, by;
    for( double v : x.d->as_double() ) { o.push_back( (long long) v ); }
    for( auto b : x.d->as_bytes() ) { by.push_back( b ); }
    e.raw( "o", list( o ) ).raw( "c", "[]" ).i( "n", x.d->size() ).i( "nb", x.d->num_bytes() ).raw( "by", list( by ) );
  }
}
template < typename D > static void wrap( vobj& x, std::shared_ptr< D > d )
{
  x.d = d;
  x.dcopy = [d] { return std::shared_ptr< descriptor >( new D( *d ) ); };
  x.dset = [d]( size_t i, long long v ) { d->raw_data()[i] = v; };
}
template < typename D > static bool rewrap( vobj& x, std::shared_ptr< descriptor > p )
{
  auto d = std::dynamic_pointer_cast< D >( p );
  if( d ) { wrap( x, d ); }
  return !!d;
}
template < typename T > static void dmake( vobj& x, bool fixed, size_t n )
{
  if( fixed && n == 1 ) { wrap( x, std::make_shared< descriptor_fixed< T, 1 > >() ); }
  else if( fixed && n == 3 ) { wrap( x, std::make_shared< descriptor_fixed< T, 3 > >() ); }
  else if( fixed && n == 8 ) { wrap( x, std::make_shared< descriptor_fixed< T, 8 > >() ); }
  else { wrap( x, std::make_shared< descriptor_dynamic< T > >( n ) ); }
}
template < typename T > static bool dcopied( vobj& x, std::shared_ptr< descriptor > p )
{
  return rewrap< descriptor_fixed< T, 1 > >( x, p ) || rewrap< descriptor_fixed< T, 3 > >( x, p ) || rewrap< descriptor_fixed< T, 8 > >( x, p ) || rewrap< descriptor_dynamic< T > >( x, p );
}
template < typename T > static bool dassign( vobj& x, vobj const& y )
{
#define ASSIGN( D ) { auto p = std::dynamic_pointer_cast< D >( x.d ); auto q = std::dynamic_pointer_cast< D >( y.d ); if( p && q ) { *p = *q; return true; } }
  typedef descriptor_fixed< T, 1 > A; typedef descriptor_fixed< T, 3 > B; typedef descriptor_fixed< T, 8 > C; typedef descriptor_dynamic< T > D;
  ASSIGN( A ) ASSIGN( B ) ASSIGN( C ) ASSIGN( D )
  return false;
}
template < typename T, typename U > static std::shared_ptr< T > from( U const& u ) { return std::make_shared< T >( u ); }
template < typename T, int M > static covariance_< M, T > cov_in( nums const& v )
{
  Eigen::Matrix< T, M, M > m;
  for( int i = 0; i < M * M; ++i ) { m( i / M, i % M ) = v[i] / 4.; }
  return covariance_< M, T >( m );
}
template < typename T > static void fset( feature_< T >& f, std::string const& at, nums const& v )
{
  if( at == "loc" ) { f.set_loc( Eigen::Matrix< T, 2, 1 >( v[0] / 4., v[1] / 4. ) ); }
  else if( at == "mag" ) { f.set_magnitude( v[0] / 4. ); }
  else if( at == "scale" ) { f.set_scale( v[0] / 4. ); }
  else if( at == "angle" ) { f.set_angle( v[0] / 4. ); }
  else if( at == "color" ) { f.set_color( rgb_color( v[0], v[1], v[2] ) ); }
  else if( at == "covar" ) { f.set_covar( cov_in< T, 2 >( v ) ); }
}
template < typename T > static void lset( landmark_< T >& f, std::string const& at, nums const& v )
{
  if( at == "loc" ) { f.set_loc( Eigen::Matrix< T, 3, 1 >( v[0] / 4., v[1] / 4., v[2] / 4. ) ); }
  else if( at == "normal" ) { f.set_normal( Eigen::Matrix< T, 3, 1 >( v[0] / 4., v[1] / 4., v[2] / 4. ) ); }
  else if( at == "scale" ) { f.set_scale( v[0] / 4. ); }
  else if( at == "obs" ) { f.set_observations( v[0] ); }
  else if( at == "color" ) { f.set_color( rgb_color( v[0], v[1], v[2] ) ); }
  else if( at == "covar" ) { f.set_covar( cov_in< T, 3 >( v ) ); }
}
template < typename T > static std::shared_ptr< feature > fmake( nums const& v )
{
  Eigen::Matrix< T, 2, 1 > const p( v[0] / 4., v[1] / 4. );
  typedef feature_< T > F;
  switch( v.size() )
  {
    case 2: return std::make_shared< F >( p );
    case 3: return std::make_shared< F >( p, v[2] / 4. );
    case 4: return std::make_shared< F >( p, v[2] / 4., v[3] / 4. );
    case 5: return std::make_shared< F >( p, v[2] / 4., v[3] / 4., v[4] / 4. );
    default: return std::make_shared< F >( p, v[2] / 4., v[3] / 4., v[4] / 4., rgb_color( v[5], v[6], v[7] ) );
  }
}
template < typename T > static std::shared_ptr< landmark > lmake( nums const& v )
{
  Eigen::Matrix< T, 3, 1 > const p( v[0] / 4., v[1] / 4., v[2] / 4. );
  return v.size() == 3 ? std::make_shared< landmark_< T > >( p ) : std::make_shared< landmark_< T > >( p, v[3] / 4. );
}
#define FEAT( x, E ) ( ( x ).t == "d" ? (void) [&]( fd& q ) { E; }( dynamic_cast< fd& >( *( x ).f ) ) : (void) [&]( ff& q ) { E; }( dynamic_cast< ff& >( *( x ).f ) ) )
#define LAND( x, E ) ( ( x ).t == "d" ? (void) [&]( ld& q ) { E; }( dynamic_cast< ld& >( *( x ).l ) ) : (void) [&]( lf& q ) { E; }( dynamic_cast< lf& >( *( x ).l ) ) )
static void values( hc::runner& R )
{
  static std::map< std::string, vobj > os;
  static config_block_sptr cfg;
  auto prior = R.on_reset;
  R.on_reset = [=] { if( prior ) { prior(); } os.clear(); cfg = config_block::empty_config(); };
  auto keep = [=]( ev& e, std::string const& h, vobj const& x ) { os[h] = x; vshow( e, h, x ); };
  R.ops["new"] = [=]( args_t const& a, ev& e ) {
    vobj x;
    x.k = a[2]; x.t = a[3];
    if( x.k == "feat" ) { x.f = x.t == "d" ? std::shared_ptr< feature >( new fd() ) : std::shared_ptr< feature >( new ff() ); }
    if( x.k == "lm" ) { x.l = x.t == "d" ? std::shared_ptr< landmark >( new ld() ) : std::shared_ptr< landmark >( new lf() ); }
    keep( e, a[1], x );
  };
  R.ops["make"] = [=]( args_t const& a, ev& e ) {
    vobj x;
    x.k = a[2]; x.t = a[3];
    nums v = rest( a, 4 );
    e.raw( "a", list( v ) ).s( "at", v.size() == 8 ? "color" : "" );
    if( x.k == "feat" ) { x.f = x.t == "d" ? fmake< double >( v ) : fmake< float >( v ); }
    if( x.k == "lm" ) { x.l = x.t == "d" ? lmake< double >( v ) : lmake< float >( v ); }
    if( x.k == "color" ) { x.c = rgb_color( v[0], v[1], v[2] ); }
    if( x.k == "geo" ) { x.g = geo_lat_lon( v[0] / 4., v[1] / 4. ); }
    keep( e, a[1], x );
  };
  // h element-type fixed elements
  R.ops["desc"] = [=]( args_t const& a, ev& e ) {
    vobj x;
    x.k = "desc"; x.t = a[2];
    nums v = rest( a, 4 );
    e.raw( "a", list( v ) );
    bool const fx = a[3] == "1";
    if( x.t == "b" ) { dmake< byte >( x, fx, v.size() ); } else if( x.t == "s" ) { dmake< short >( x, fx, v.size() ); } else if( x.t == "i" ) { dmake< int >( x, fx, v.size() ); }
    else if( x.t == "f" ) { dmake< float >( x, fx, v.size() ); } else { dmake< double >( x, fx, v.size() ); }
    for( size_t i = 0; i < v.size(); ++i ) { x.dset( i, v[i] ); }
    keep( e, a[1], x );
  };
  R.ops["set"] = [=]( args_t const& a, ev& e ) {
    vobj& x = os[a[1]];
    std::string const& at = a[2];
    nums v = rest( a, 3 );
    e.raw( "a", list( v ) ).s( "at", at );
    if( x.k == "feat" ) { FEAT( x, fset( q, at, v ) ); }
    if( x.k == "lm" ) { LAND( x, lset( q, at, v ) ); }
    if( x.k == "color" ) { ( at == "r" ? x.c.r : at == "g" ? x.c.g : x.c.b ) = v[0]; }
    if( x.k == "geo" ) { if( at == "lat" ) { x.g.set_latitude( v[0] / 4. ); } else { x.g.set_longitude( v[0] / 4. ); } }
    if( x.k == "desc" ) { x.dset( N( at ) - 1, v[0] ); }
    vshow( e, a[1], x );
  };
  R.ops["covar"] = [=]( args_t const& a, ev& e ) {
    vobj& x = os[a[1]];
    nums v = rest( a, 2 );
    e.raw( "a", list( v ) );
    if( x.k == "feat" ) { FEAT( x, fset( q, "covar", v ) ); } else { LAND( x, lset( q, "covar", v ) ); }
    vshow( e, a[1], x );
  };
  auto copied = [=]( vobj y ) {
    if( y.k == "feat" ) { y.f = y.t == "d" ? std::shared_ptr< feature >( new fd( dynamic_cast< fd const& >( *y.f ) ) ) : std::shared_ptr< feature >( new ff( dynamic_cast< ff const& >( *y.f ) ) ); }
    if( y.k == "lm" ) { y.l = y.t == "d" ? std::shared_ptr< landmark >( new ld( dynamic_cast< ld const& >( *y.l ) ) ) : std::shared_ptr< landmark >( new lf( dynamic_cast< lf const& >( *y.l ) ) ); }
    if( y.k == "desc" )
    {
      auto d = y.dcopy();
      if( !( dcopied< byte >( y, d ) || dcopied< short >( y, d ) || dcopied< int >( y, d ) || dcopied< float >( y, d ) || dcopied< double >( y, d ) ) ) { abort(); }
    }
    return y;
  };
  R.ops["copy"] = [=]( args_t const& a, ev& e ) { e.s( "g", a[2] ); keep( e, a[1], copied( os[a[2]] ) ); };
  R.ops["clone"] = [=]( args_t const& a, ev& e ) { vobj y = os[a[2]]; y.l = y.l->clone(); e.s( "g", a[2] ); keep( e, a[1], y ); };
  R.ops["assign"] = [=]( args_t const& a, ev& e ) {
    vobj& x = os[a[1]];
    vobj const& y = os[a[2]];
    e.s( "g", a[2] );
    if( x.k == "feat" ) { FEAT( x, q = dynamic_cast< decltype( q ) >( *y.f ) ); }
    else if( x.k == "lm" ) { LAND( x, q = dynamic_cast< decltype( q ) >( *y.l ) ); }
    else if( x.k == "desc" ) { if( !( dassign< byte >( x, y ) || dassign< short >( x, y ) || dassign< int >( x, y ) || dassign< float >( x, y ) || dassign< double >( x, y ) ) ) { abort(); } }
    else if( x.k == "color" ) { x.c = y.c; }
    else { x.g = y.g; }
    vshow( e, a[1], x );
  };
  R.ops["conv"] = [=]( args_t const& a, ev& e ) {
    vobj y = os[a[2]];
    y.t = a[3];
    if( y.k == "feat" ) { y.f = y.t == "d" ? std::shared_ptr< feature >( new fd( *y.f ) ) : std::shared_ptr< feature >( new ff( *y.f ) ); }
    if( y.k == "lm" ) { y.l = y.t == "d" ? std::shared_ptr< landmark >( new ld( *y.l ) ) : std::shared_ptr< landmark >( new lf( *y.l ) ); }
    e.s( "g", a[2] );
    keep( e, a[1], y );
  };
  R.ops["show"] = [=]( args_t const& a, ev& e ) { vshow( e, a[1], os[a[1]] ); };
  R.ops["text"] = [=]( args_t const& a, ev& e ) {
    vobj& x = os[a[1]];
    vobj& y = os[a[2]];
    std::stringstream s;
    if( y.k == "feat" ) { if( a[3] == "base" ) { s << *y.f; } else { FEAT( y, s << q ); } }
    if( y.k == "lm" ) { if( a[3] == "base" ) { s << *y.l; } else { LAND( y, s << q ); } }
    if( y.k == "color" ) { s << y.c; }
    if( x.k == "feat" ) { FEAT( x, s >> q ); }
    if( x.k == "lm" ) { LAND( x, s >> q ); }
    if( x.k == "color" ) { s >> x.c; }
    e.s( "g", a[2] );
    vshow( e, a[1], x );
  };
  R.ops["ctext"] = [=]( args_t const& a, ev& e ) {
    std::stringstream s( a[2] + " " + a[3] + "\n " + a[4] );
    s >> os[a[1]].c;
    e.raw( "a", list( rest( a, 2 ) ) ).t( "fail", s.fail() );
    vshow( e, a[1], os[a[1]] );
  };
  R.ops["eq"] = [=]( args_t const& a, ev& e ) {
    vobj const& x = os[a[1]], & y = os[a[2]];
    e.s( "h", a[1] ).s( "g", a[2] );
    if( x.k == "color" ) { e.t( "eq", x.c == y.c ).t( "ne", x.c != y.c ); } else { e.t( "eq", x.g == y.g ).t( "ne", x.g != y.g ); }
  };
  R.ops["geotext"] = [=]( args_t const& a, ev& e ) {
    std::ostringstream s;
    s.precision( 3 );
    s << os[a[1]].g;
    e.s( "h", a[1] ).s( "s", s.str() ).t( "prec", s.precision() == 3 );
  };
  R.ops["tsset"] = [=]( args_t const& a, ev& e ) {
    cfg->set_value( a[1], timestamp( N( a[2] ), N( a[3] ) ) );
    e.s( "k", a[1] ).s( "t", a[2] ).s( "f", a[3] ).s( "s", cfg->get_value< std::string >( a[1] ) );
  };
  R.ops["cfgset"] = [=]( args_t const& a, ev& e ) { cfg->set_value( a[1], a[2] ); e.s( "k", a[1] ).s( "s", a[2] ); };
  R.ops["tsget"] = [=]( args_t const& a, ev& e ) {
    e.s( "k", a[1] );
    try
    {
      timestamp const t = cfg->get_value< timestamp >( a[1] );
      e.s( "t", std::to_string( t.get_time_usec() ) ).s( "f", std::to_string( t.get_frame() ) ).t( "vt", t.has_valid_time() ).t( "vf", t.has_valid_frame() ).s( "err", "" );
    }
    catch( bad_config_block_cast_exception const& ) { e.s( "err", "bad_config_block_cast" ); }
    catch( std::exception const& x ) { e.s( "err", x.what() ); }
  };
  R.ops["tsgetd"] = [=]( args_t const& a, ev& e ) {
    timestamp const t = cfg->get_value< timestamp >( a[1], timestamp( N( a[2] ), N( a[3] ) ) );
    e.s( "k", a[1] ).s( "dt", a[2] ).s( "df", a[3] ).s( "t", std::to_string( t.get_time_usec() ) ).s( "f", std::to_string( t.get_frame() ) );
  };
}

// usage: h_math FAMILY SCRIPT OUT WORK
int main( int argc, char** argv )
{
  hc::runner R;
  std::string const f = argv[1];
  if( f == "hom" ) { homographies( R ); }
  if( f == "cov" ) { covariances( R ); }
  if( f == "sparse" ) { sparse( R ); }
  if( f == "val" ) { values( R ); }
  return R.main( argc, argv );
}
