// Persistent homology of filtered complexes: all variants of the computation.
#include "common.hh"

#include <aleph/persistentHomology/Calculation.hh>
#include <aleph/persistentHomology/algorithms/Standard.hh>
#include <aleph/persistentHomology/algorithms/Twist.hh>

#include <aleph/topology/BoundaryMatrix.hh>
#include <aleph/topology/Conversions.hh>

#include <aleph/topology/representations/List.hh>
#include <aleph/topology/representations/Set.hh>
#include <aleph/topology/representations/Vector.hh>

#include <algorithm>

using namespace aleph;
using namespace vh;

using Standard = persistentHomology::algorithms::Standard;
using Twist    = persistentHomology::algorithms::Twist;
using Rect     = persistentHomology::algorithms::StandardRectangular;

template <class Diagrams> J diagramsTo( const Diagrams& ds, double scale )
{
  J r = J::arr();
  for( auto&& d : ds )
    r.push( diagramTo( d, scale ) );
  return r;
}

template <class Pairing> J pairingTo( const Pairing& pairing, std::size_t n )
{
  J r = J::arr();
  for( auto&& p : pairing )
  {
    J q = J::arr();
    q.push( J( static_cast<long long>( p.first ) ) );
    q.push( J( p.second < n ? static_cast<long long>( p.second ) : -1LL ) );
    r.push( q );
  }
  return r;
}

template <class Simplex> J diagramsOnly( const J& c, double scale )
{
  auto K = complexFrom<Simplex>( c["K"], c["W"], scale );
  J out = J::arr();

  for( int dual = 0; dual < 2; dual++ )
    for( int all = 0; all < 2; all++ )
    {
      J v = J::obj();
      v.set( "dual", J( bool( dual ) ) );
      v.set( "all", J( bool( all ) ) );
      v.set( "dgms", diagramsTo( calculatePersistenceDiagrams( K, bool( dual ), bool( all ) ), scale ) );
      out.push( v );
    }

  J v = J::obj();
  v.set( "dual", J( true ) );
  v.set( "all", J( false ) );
  v.set( "dgms", diagramsTo( calculatePersistenceDiagrams( K ), scale ) );
  out.push( v );

  return out;
}

template <class Algorithm, class Representation, class Complex> void variant( const Complex& K, const std::string& name, const J& c, J& out, double scale, bool hashOnly )
{
  auto M = topology::makeBoundaryMatrix<Representation>( K );

  for( int dual = 0; dual < 3; dual++ )
    for( int all = 0; all < 2; all++ )
    {
      auto B = dual == 2 ? M.dualize().dualize() : dual ? M.dualize() : M;

      auto bounds = c["max"].ints();
      bounds.insert( bounds.begin(), -1 );

      for( auto max : bounds )
      {
        J v = J::obj();
        v.set( "variant", J( name ) );
        v.set( "dual", J( dual ) );
        v.set( "all", J( bool( all ) ) );
        v.set( "max", J( max ) );

        auto pairing = max < 0 ? calculatePersistencePairing<Algorithm>( B, bool( all ) )
                               : calculatePersistencePairing<Algorithm>( B, bool( all ), static_cast<typename Representation::Index>( max ) );

        J dgms;
        if( max < 0 )
          dgms = diagramsTo( calculatePersistenceDiagrams<Algorithm, Representation>( K, dual == 1, bool( all ) ), scale );

        if( hashOnly )
        {
          // Multisets are compared through the sorted list of their elements
          auto p = pairingTo( pairing, K.size() );
          std::vector<std::string> ps, qs;
          for( auto&& x : p.a ) { std::string t; x.dump( t ); ps.push_back( t ); }
          for( auto&& d : dgms.a )
          {
            for( auto&& x : d["pts"].a ) { std::string t = std::to_string( d["dim"].i ); x.dump( t ); qs.push_back( t ); }
            for( auto&& x : d["inf"].a ) { std::string t = std::to_string( d["dim"].i ) + "i"; x.dump( t ); qs.push_back( t ); }
          }
          std::sort( ps.begin(), ps.end() );
          std::sort( qs.begin(), qs.end() );
          std::string a, b;
          for( auto&& x : ps ) a += x;
          for( auto&& x : qs ) b += x;
          v.set( "hash", J( static_cast<long long>( fnv( a ) % 1000000007ULL ) ) );
          v.set( "dhash", J( static_cast<long long>( fnv( b ) % 1000000007ULL ) ) );
        }
        else
        {
          v.set( "pairing", pairingTo( pairing, K.size() ) );
          if( max < 0 )
            v.set( "dgms", dgms );
        }

        out.push( v );
      }
    }
}

J variants( const J& c, double scale, bool hashOnly )
{
  using Simplex = topology::Simplex<double, unsigned>;
  using Index   = unsigned;

  using V = topology::representations::Vector<Index>;
  using S = topology::representations::Set<Index>;
  using L = topology::representations::List<Index>;

  auto K = complexFrom<Simplex>( c["K"], c["W"], scale );
  J out = J::arr();

  variant<Standard, V>( K, "standard/vector", c, out, scale, hashOnly );
  variant<Standard, S>( K, "standard/set",    c, out, scale, hashOnly );
  variant<Standard, L>( K, "standard/list",   c, out, scale, hashOnly );
  variant<Rect,     V>( K, "rect/vector",     c, out, scale, hashOnly );
  variant<Twist,    V>( K, "twist/vector",    c, out, scale, hashOnly );
  variant<Twist,    S>( K, "twist/set",       c, out, scale, hashOnly );
  variant<Twist,    L>( K, "twist/list",      c, out, scale, hashOnly );

  return out;
}

J handle( const J& c )
{
  std::string kind = c["k"].s;

  if( kind == "diagrams" )
  {
    std::string t = c["t"].s;
    if( t == "du" ) return diagramsOnly< topology::Simplex<double, unsigned> >( c, 4.0 );
    if( t == "fs" ) return diagramsOnly< topology::Simplex<float, unsigned short> >( c, 4.0 );
    if( t == "dl" ) return diagramsOnly< topology::Simplex<double, unsigned long> >( c, 4.0 );
    if( t == "iu" ) return diagramsOnly< topology::Simplex<int, unsigned> >( c, 1.0 );
  }
  if( kind == "variants" )  return variants( c, 4.0, false );
  if( kind == "agreement" )
  {
    // Grouped by flag and bound: only results that must coincide are compared
    J all = variants( c, 4.0, true );
    J out = J::arr();
    for( auto&& v : all.a )
      if( v["all"].b == c["all"].b )
        out.push( v );
    return out;
  }

  std::fprintf( stderr, "unknown kind\n" );
  std::_Exit( 99 );
}

int main( int argc, char** argv )
{
  return run( argc, argv, handle );
}
