#ifndef VERIF_COMMON_HH
#define VERIF_COMMON_HH

#include "harness.hh"

#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>

namespace vh
{

// Builds a complex in the given order: K is a list of vertex lists, W a list
// of integer weights which are divided by `scale` (and embedded as the case says).
template <class Simplex> aleph::topology::SimplicialComplex<Simplex> complexFrom( const J& K, const J& W, double scale = 1.0 )
{
  using V = typename Simplex::VertexType;
  using D = typename Simplex::DataType;

  std::vector<Simplex> simplices;
  for( std::size_t k = 0; k < K.size(); k++ )
  {
    auto vs = K[k].as<V>();
    simplices.push_back( Simplex( vs.begin(), vs.end(), enc<D>( W[k].i, scale ) ) );
  }

  return aleph::topology::SimplicialComplex<Simplex>( simplices.begin(), simplices.end() );
}

template <class Simplex> J vertices( const Simplex& s )
{
  J r = J::arr();
  for( auto&& v : s )
    r.push( J( static_cast<long long>( v ) ) );
  return r;
}

// A complex as a sequence of [vertices, weight] in its own order.
template <class Complex> J complexTo( const Complex& K, double scale = 1.0 )
{
  J r = J::arr();
  for( auto&& s : K )
  {
    J x = J::obj();
    x.set( "s", vertices( s ) );
    x.set( "w", dec( s.data(), scale ) );
    r.push( x );
  }
  return r;
}

template <class Diagram> J diagramTo( const Diagram& D, double scale = 1.0 )
{
  J pts = J::arr();
  J inf = J::arr();
  for( auto&& p : D )
  {
    if( p.isUnpaired() )
      inf.push( dec( p.x(), scale ) );
    else
    {
      J q = J::arr();
      q.push( dec( p.x(), scale ) );
      q.push( dec( p.y(), scale ) );
      pts.push( q );
    }
  }
  J r = J::obj();
  r.set( "dim", J( static_cast<long long>( D.dimension() ) ) );
  r.set( "pts", pts );
  r.set( "inf", inf );
  return r;
}

inline std::uint64_t fnv( const std::string& s )
{
  std::uint64_t h = 1469598103934665603ULL;
  for( unsigned char c : s ) { h ^= c; h *= 1099511628211ULL; }
  return h;
}

} // namespace vh

#endif
