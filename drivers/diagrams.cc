// Persistence diagrams: histories, norms, distances; assignment solver.
#include "common.hh"

#include <aleph/geometry/distances/Euclidean.hh>

#include <aleph/persistenceDiagrams/Extraction.hh>
#include <aleph/persistenceDiagrams/Norms.hh>
#include <aleph/persistenceDiagrams/PersistenceDiagram.hh>

#include <aleph/persistenceDiagrams/distances/Bottleneck.hh>
#include <aleph/persistenceDiagrams/distances/Hausdorff.hh>
#include <aleph/persistenceDiagrams/distances/NearestNeighbour.hh>
#include <aleph/persistenceDiagrams/distances/PointSet.hh>
#include <aleph/persistenceDiagrams/distances/Wasserstein.hh>

#include <array>
#include <cmath>

using namespace aleph;
using namespace vh;

template <class T> J value( T x, double scale )
{
  if( !std::numeric_limits<T>::has_infinity && x == std::numeric_limits<T>::max() )
    return J( PLUS_INF );
  return dec( x, scale );
}

template <class T> J difference( T x, double scale )
{
  if( !std::numeric_limits<T>::has_infinity && x == std::numeric_limits<T>::max() )
    return J( PLUS_INF );
  return decDifference( x, scale );
}

template <class T> J pair( T x, T y, double scale )
{
  J p = J::arr();
  p.push( value( x, scale ) ).push( value( y, scale ) );
  return p;
}

template <class T> PersistenceDiagram<T> diagram( const J& points, double scale, std::size_t dimension = 0 )
{
  PersistenceDiagram<T> D;
  D.setDimension( dimension );
  for( auto&& p : points.a )
  {
    if( p[1].i == PLUS_INF )
      D.add( enc<T>( p[0].i, scale ) );
    else
      D.add( enc<T>( p[0].i, scale ), enc<T>( p[1].i, scale ) );
  }
  return D;
}

template <class T> J history( const J& c )
{
  const double S = std::numeric_limits<T>::is_integer ? 1 : 4;
  const double F = S / unit<T>().factor;
  std::array< PersistenceDiagram<T>, 3 > R;
  auto val = [S] ( const J& x ) { return enc<T>( x.i, S ); };

  J out = J::arr();
  for( auto&& op : c["ops"].a )
  {
    auto o = op["op"].s;
    auto& D = R.at( std::size_t( op["r"].i - 1 ) );
    J r = J::obj();

    auto at = [&] ( const char* k, std::size_t n ) { return std::min( std::size_t( op[k].i ), n ); };

    if( o == "add" ) D.add( val( op["x"] ), val( op["y"] ) );
    else if( o == "unp" ) D.add( val( op["x"] ) );
    else if( o == "merge" ) D.merge( R.at( std::size_t( op["s"].i - 1 ) ) );
    else if( o == "copy" ) D = R.at( std::size_t( op["s"].i - 1 ) );
    else if( o == "fresh" ) D = PersistenceDiagram<T>();
    else if( o == "insert" )
    {
      auto E = R.at( std::size_t( op["s"].i - 1 ) );
      auto a = long( at( "a", E.size() ) ), b = long( at( "b", E.size() ) );
      D.insert( D.begin() + long( at( "pos", D.size() ) ), E.begin() + a, E.begin() + b );
    }
    else if( o == "erase" )
    {
      auto a = long( at( "a", D.size() ) ), b = long( at( "b", D.size() ) );
      if( b == a + 1 )
        D.erase( D.begin() + a );
      else
        D.erase( D.begin() + a, D.begin() + b );
    }
    else if( o == "rdiag" ) D.removeDiagonal();
    else if( o == "runp" ) D.removeUnpaired();
    else if( o == "rdup" ) D.removeDuplicates();
    else if( o == "setdim" ) D.setDimension( std::size_t( op["d"].i ) );
    else if( o == "norms" )
    {
      // Without an infinity, persistence of points at infinity is not defined
      bool skip = false;
      for( auto&& p : D )
        skip = skip || ( std::numeric_limits<T>::is_integer && p.y() == std::numeric_limits<T>::max() );

      J n = J::obj(), total = J::arr(), weighted = J::arr(), pnorm = J::arr(), p = J::arr(), a = J::arr(), shares = J::arr();
      for( int k = 1; k <= 3; k++ )
      {
        double s = std::pow( F, k );
        total.push( num( totalPersistence( D, k ), s, digits<T>() ) );
        weighted.push( num( totalPersistence( D, k, true ), s * F, digits<T>() ) );
        pnorm.push( num( std::pow( pNorm( D, k ), k ), s, digits<T>() ) );
      }
      std::vector<T> ps, as;
      std::vector<double> ws;
      persistence( D, std::back_inserter( ps ) );
      persistence( D, std::back_inserter( as ), true );
      weightedPersistence( D, std::back_inserter( ws ) );
      for( auto&& x : ps ) p.push( difference( x, S ) );
      for( auto&& x : as ) a.push( difference( x, S ) );
      for( auto&& x : ws ) shares.push( num( x * double( D.size() ), F, digits<T>() ) );
      n.set( "total", total ).set( "weighted", weighted ).set( "pnorm", pnorm ).set( "inf", difference( infinityNorm( D ), S ) );
      n.set( "pers", p ).set( "apers", a ).set( "shares", shares );
      if( skip )
        n = J::obj().set( "skip", J( true ) );
      r.set( "norms", n );
    }

    J regs = J::arr(), eq = J::arr(), ne = J::arr();
    for( auto&& E : R )
    {
      J pts = J::arr(), e = J::arr(), f = J::arr(), x = J::obj();
      for( auto&& p : E )
        pts.push( pair( p.x(), p.y(), S ) );
      for( auto&& F : R )
      {
        e.push( J( bool( E == F ) ) );
        f.push( J( bool( E != F ) ) );
      }
      x.set( "pts", pts ).set( "dim", J( E.dimension() ) ).set( "size", J( E.size() ) ).set( "betti", J( E.betti() ) ).set( "empty", J( E.empty() ) );
      regs.push( x );
      eq.push( e );
      ne.push( f );
    }
    r.set( "regs", regs ).set( "eq", eq ).set( "ne", ne );
    out.push( r );
  }
  return out;
}

template <class T> J assignment( const J& c )
{
  using namespace aleph::distances::detail;
  auto n = c["C"].size();
  auto scale = std::ldexp( 1.0, int( c["e"].i ) );
  Matrix<T> costs( n );
  for( std::size_t i = 0; i < n; i++ )
    for( std::size_t j = 0; j < n; j++ )
      costs( i, j ) = static_cast<T>( c["C"][i][j].i * scale );

  Munkres<T> solver( costs );
  auto M = solver();

  J matching = J::arr(), zeros = J::arr();
  std::vector< std::pair<std::size_t, std::size_t> > pairs;
  solver.matching( std::back_inserter( pairs ) );
  for( auto&& p : pairs )
    matching.push( J::arr().push( J( p.first ) ).push( J( p.second ) ) );
  for( std::size_t i = 0; i < M.n(); i++ )
    for( std::size_t j = 0; j < M.n(); j++ )
      if( M( i, j ) == T() )
        zeros.push( J::arr().push( J( i ) ).push( J( j ) ) );

  J r = J::obj();
  r.set( "matching", matching ).set( "zeros", zeros ).set( "cost", num( double( solver.cost( costs ) ), 1 / scale, digits<T>() ) );
  return r;
}

template <class T> J matchings( const J& c )
{
  using namespace aleph::distances;
  const double S = 4, F = S / unit<T>().factor;
  auto A = diagram<T>( c["A"], S, std::size_t( c["d"].i ) );
  auto B = diagram<T>( c["B"], S, std::size_t( c["d"].i ) );

  J b = J::arr(), w = J::arr(), r = J::obj();
  b.push( num( double( bottleneckDistance( A, B ) ), F, digits<T>() ) ).push( num( double( bottleneckDistance( B, A ) ), F, digits<T>() ) );
  for( int p = 1; p <= 3; p++ )
  {
    J x = J::arr();
    for( auto&& d : { wassersteinDistance( A, B, T( p ) ), wassersteinDistance( B, A, T( p ) ) } )
      x.push( J( static_cast<long long>( std::llround( std::pow( double( d ) * F, p ) ) ) ) );
    w.push( x );
  }
  w.a[0].push( num( double( wassersteinDistance( A, B ) ), F, digits<T>() ) );

  using Squared = geometry::distances::Euclidean<T>;
  J q = J::arr();
  q.push( num( double( wassersteinDistance<T, Squared>( A, B ) ), F * F, digits<T>() ) ).push( num( double( wassersteinDistance<T, Squared>( B, A ) ), F * F, digits<T>() ) );

  // Diagrams of different dimensions must not be compared
  auto C = diagram<T>( c["B"], S, std::size_t( c["d"].i ) + 1 );
  int refused = 0;
  try { wassersteinDistance( A, C ); } catch( std::exception& ) { ++refused; }
  try { wassersteinDistance( C, A ); } catch( std::exception& ) { ++refused; }

  r.set( "bottleneck", b ).set( "wasserstein", w ).set( "squares", q ).set( "refused", J( refused ) );
  return r;
}

template <class T> J pointSets( const J& c )
{
  using namespace aleph::distances;
  const double S = 4, F = S / unit<T>().factor;
  auto A = diagram<T>( c["A"], S );
  auto B = diagram<T>( c["B"], S );

  J h = J::arr(), n = J::arr(), s = J::arr(), r = J::obj();
  h.push( num( double( hausdorffDistance( A, B ) ), F, digits<T>() ) ).push( num( double( hausdorffDistance( B, A ) ), F, digits<T>() ) );
  n.push( num( double( nearestNeighbourDistance( A, B ) ), 2 * F, digits<T>() ) ).push( num( double( nearestNeighbourDistance( B, A ) ), 2 * F, digits<T>() ) );
  s.push( num( double( sumOfMinimumDistances( A, B ) ), 2 * F, digits<T>() ) ).push( num( double( sumOfMinimumDistances( B, A ) ), 2 * F, digits<T>() ) );

  geometry::distances::Euclidean<T> squared;
  J q = J::arr();
  q.push( num( double( hausdorffDistance( A, B, squared ) ), F * F, digits<T>() ) ).push( num( double( hausdorffDistance( B, A, squared ) ), F * F, digits<T>() ) );
  J m = J::arr();
  m.push( num( double( nearestNeighbourDistance( A, B, squared ) ), 2 * F * F, digits<T>() ) ).push( num( double( nearestNeighbourDistance( B, A, squared ) ), 2 * F * F, digits<T>() ) );
  m.push( num( double( sumOfMinimumDistances( A, B, squared ) ), 2 * F * F, digits<T>() ) ).push( num( double( sumOfMinimumDistances( B, A, squared ) ), 2 * F * F, digits<T>() ) );
  r.set( "hausdorff", h ).set( "nearest", n ).set( "sum", s ).set( "squaredHausdorff", q ).set( "squaredSums", m );
  return r;
}

J handle( const J& c )
{
  auto k = c["k"].s;
  auto t = c["t"].s;
  if( k == "history" )
    return t == "d" ? history<double>( c ) : t == "f" ? history<float>( c ) : history<int>( c );
  if( k == "assignment" )
    return t == "d" ? assignment<double>( c ) : t == "f" ? assignment<float>( c ) : assignment<int>( c );
  if( k == "distances" )
    return t == "d" ? matchings<double>( c ) : matchings<float>( c );
  return t == "d" ? pointSets<double>( c ) : pointSets<float>( c );
}

int main( int argc, char** argv )
{
  return run( argc, argv, handle );
}
