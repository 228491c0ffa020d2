// Union-find histories, connected components, degree-0 persistence and the
// extended persistence hierarchy.
#include "common.hh"

#include <aleph/persistentHomology/Calculation.hh>
#include <aleph/persistentHomology/ConnectedComponents.hh>
#include <aleph/persistentHomology/ExtendedPersistenceHierarchy.hh>

#include <aleph/topology/ConnectedComponents.hh>
#include <aleph/topology/UnionFind.hh>

#include <iterator>
#include <set>

using namespace aleph;
using namespace vh;

template <class T> J unionFind( const J& c )
{
  auto elements = c["elements"].as<T>();
  topology::UnionFind<T> uf( elements.begin(), elements.end() );

  auto list = [] ( const std::vector<T>& xs )
  {
    J r = J::arr();
    for( auto&& x : xs )
      r.push( J( static_cast<long long>( x ) ) );
    return r;
  };

  J out = J::arr();
  for( auto&& op : c["ops"].a )
  {
    std::string o = op["op"].s;
    J r = J::obj();

    if( o == "merge" )
      uf.merge( static_cast<T>( op["u"].i ), static_cast<T>( op["v"].i ) );
    else if( o == "find" )
    {
      try
      {
        r.set( "r", J( static_cast<long long>( uf.find( static_cast<T>( op["u"].i ) ) ) ) );
        r.set( "exc", J( false ) );
      }
      catch( std::exception& )
      {
        r.set( "exc", J( true ) );
      }
    }
    else if( o == "contains" )
      r.set( "r", J( uf.contains( static_cast<T>( op["u"].i ) ) ) );
    else if( o == "roots" )
    {
      std::vector<T> xs;
      uf.roots( std::back_inserter( xs ) );
      r.set( "r", list( xs ) );
    }
    else if( o == "get" )
    {
      std::vector<T> xs;
      uf.get( static_cast<T>( op["u"].i ), std::back_inserter( xs ) );
      r.set( "r", list( xs ) );
    }
    else if( o == "all" )
    {
      J classes = J::arr(), finds = J::arr();
      for( auto&& x : elements )
      {
        std::vector<T> xs;
        uf.get( x, std::back_inserter( xs ) );
        J k = J::obj();
        k.set( "of", J( static_cast<long long>( x ) ) );
        k.set( "members", list( xs ) );
        classes.push( k );
      }
      std::vector<T> xs;
      uf.roots( std::back_inserter( xs ) );
      for( auto&& x : elements )
      {
        J p = J::arr();
        p.push( J( static_cast<long long>( x ) ) );
        p.push( J( static_cast<long long>( uf.find( x ) ) ) );
        finds.push( p );
      }
      r.set( "roots", list( xs ) );
      r.set( "finds", finds );
      r.set( "classes", classes );
    }
    out.push( r );
  }
  return out;
}

template <class Simplex> J components( const J& c )
{
  using V = typename Simplex::VertexType;

  auto K  = complexFrom<Simplex>( c["K"], c["W"] );
  auto uf = topology::calculateConnectedComponents( K );

  J classes = J::arr(), same = J::arr();
  std::vector<V> roots;
  uf.roots( std::back_inserter( roots ) );
  for( auto&& root : roots )
  {
    std::vector<V> xs;
    uf.get( root, std::back_inserter( xs ) );
    J k = J::obj();
    k.set( "of", J( static_cast<long long>( root ) ) );
    J m = J::arr();
    for( auto&& x : xs )
      m.push( J( static_cast<long long>( x ) ) );
    k.set( "members", m );
    classes.push( k );
  }
  for( auto&& q : c["same"].a )
  {
    J r = J::arr();
    r.push( q[0] );
    r.push( q[1] );
    r.push( J( uf.find( static_cast<V>( q[0].i ) ) == uf.find( static_cast<V>( q[1].i ) ) ) );
    same.push( r );
  }
  J out = J::obj();
  out.set( "classes", classes );
  out.set( "same", same );
  return out;
}

const double scale = 4.0;

struct Recorder
{
  J initialised = J::arr();
  J merges      = J::arr();
  J survivors   = J::arr();

  template <class V> void initialize( V v )
  {
    initialised.push( J( static_cast<long long>( v ) ) );
  }

  template <class V, class D> void operator()( V younger, V older, D creation, D destruction, V u, V v )
  {
    J r = J::arr();
    r.push( J( static_cast<long long>( younger ) ) );
    r.push( J( static_cast<long long>( older ) ) );
    r.push( dec( creation, scale ) );
    r.push( dec( destruction, scale ) );
    r.push( J( static_cast<long long>( u ) ) );
    r.push( J( static_cast<long long>( v ) ) );
    merges.push( r );
  }

  template <class V, class D> void operator()( V root, D creation )
  {
    J r = J::arr();
    r.push( J( static_cast<long long>( root ) ) );
    r.push( dec( creation, scale ) );
    survivors.push( r );
  }
};

template <class Pairing> J pairs( const Pairing& pp, std::size_t n )
{
  J r = J::arr();
  for( auto&& p : pp )
  {
    J q = J::arr();
    q.push( J( static_cast<long long>( p.first ) ) );
    q.push( J( p.second < n ? static_cast<long long>( p.second ) : -1LL ) );
    r.push( q );
  }
  return r;
}

template <class Tuple> void record( J& runs, const Tuple& t, bool diagonal, bool pairing, std::size_t n )
{
  J r = J::obj();
  r.set( "diagonal", J( diagonal ) );
  r.set( "pairing", J( pairing ) );
  r.set( "dgm", diagramTo( std::get<0>( t ), scale ) );
  r.set( "pairs", pairs( std::get<1>( t ), n ) );
  runs.push( r );
}

template <class Simplex> J elder( const J& c )
{
  using V  = typename Simplex::VertexType;
  using PP = PersistencePairing<V>;

  auto K = complexFrom<Simplex>( c["K"], c["W"], scale );
  auto n = K.size();

  J runs = J::arr();

  record( runs, calculateZeroDimensionalPersistenceDiagram( K ), false, false, n );
  record( runs, calculateZeroDimensionalPersistenceDiagram<Simplex, traits::PersistencePairingCalculation<PP> >( K ), false, true, n );
  record( runs, calculateZeroDimensionalPersistenceDiagram<Simplex, traits::PersistencePairingCalculation<PP>, traits::DiagonalElementCalculation>( K ), true, true, n );

  Recorder recorder;
  record( runs, calculateZeroDimensionalPersistenceDiagram<Simplex, traits::NoPersistencePairingCalculation<PP>, traits::DiagonalElementCalculation>( K, recorder ), true, false, n );

  J out = J::obj();
  out.set( "runs", runs );
  out.set( "initialised", recorder.initialised );
  out.set( "merges", recorder.merges );
  out.set( "survivors", recorder.survivors );

  J general = J::obj();
  general.set( "pts", J::arr() );
  general.set( "inf", J::arr() );
  for( auto&& d : calculatePersistenceDiagrams( K, true, true ) )
    if( d.dimension() == 0 )
      general = diagramTo( d, scale );
  out.set( "general", general );
  return out;
}

template <class Simplex> J hierarchy( const J& c )
{
  auto K = complexFrom<Simplex>( c["K"], c["W"], scale );

  ExtendedPersistenceHierarchy<Simplex> eph;
  auto r = eph( K );

  J out = J::obj();
  out.set( "pairs", pairs( r.first, K.size() ) );
  J edges = J::arr();
  for( auto&& e : r.second )
  {
    J q = J::arr();
    q.push( J( static_cast<long long>( e.first ) ) );
    q.push( J( static_cast<long long>( e.second ) ) );
    edges.push( q );
  }
  out.set( "edges", edges );
  return out;
}

J handle( const J& c )
{
  using DU = topology::Simplex<double, unsigned>;
  using FS = topology::Simplex<float, unsigned short>;

  std::string k = c["k"].s;
  std::string t = c["t"].s;

  if( k == "uf" )
  {
    if( t == "us" ) return unionFind<unsigned short>( c );
    if( t == "i" )  return unionFind<int>( c );
    return unionFind<unsigned long>( c );
  }
  if( k == "components" ) return t == "fs" ? components<FS>( c ) : components<DU>( c );
  if( k == "elder" )      return t == "fs" ? elder<FS>( c ) : elder<DU>( c );
  if( k == "hierarchy" )  return t == "fs" ? hierarchy<FS>( c ) : hierarchy<DU>( c );
  std::_Exit( 99 );
}

int main( int argc, char** argv )
{
  return run( argc, argv, handle );
}
