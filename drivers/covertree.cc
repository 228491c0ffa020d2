// Histories of cover tree insertions.
#include "common.hh"

#include <aleph/geometry/CoverTree.hh>

#include <array>

using namespace vh;

struct Pt
{
  long long x, y;
  double unit;
  bool operator<( const Pt& o ) const { return x != o.x ? x < o.x : y < o.y; }
  bool operator==( const Pt& o ) const { return x == o.x && y == o.y; }
};

std::ostream& operator<<( std::ostream& o, const Pt& p ) { return o << p.x << "," << p.y; }

struct L1
{
  double operator()( const Pt& p, const Pt& q ) const
  {
    return double( std::llabs( p.x - q.x ) + std::llabs( p.y - q.y ) ) / p.unit;
  }
};

J point( const Pt& p )
{
  J r = J::arr();
  r.push( J( p.x ) ); r.push( J( p.y ) );
  return r;
}

J handle( const J& c )
{
  aleph::geometry::CoverTree<Pt, L1> T;
  J out = J::arr();
  for( auto&& op : c["ops"].a )
  {
    double unit = double( op["unit"].i );
    auto make = [unit] ( const J& j ) { return Pt{ j[0].i, j[1].i, unit }; };
    if( op["op"].s == "insert" )
      T.insert( make( op["p"] ) );
    else
    {
      std::vector<Pt> ps;
      for( auto&& p : op["ps"].a )
        ps.push_back( make( p ) );
      T.insert( ps.begin(), ps.end() );
    }

    J r = J::obj();
    J ps = J::arr(), lv = J::arr(), tl = J::arr(), valid = J::arr();
    for( auto&& p : T.points() )
      ps.push( point( p ) );
    for( auto&& x : T.getNodesByLevel() )
    {
      J q = J::arr();
      q.push( J( static_cast<long long>( x.first ) ) ); q.push( point( x.second ) );
      lv.push( q );
    }
    for( auto&& x : T.nodesToLevel() )
    {
      J q = J::arr();
      q.push( J( static_cast<long long>( x.second ) ) ); q.push( point( x.first ) );
      tl.push( q );
    }
    valid.push( J( T.checkLevelInvariant() ) ); valid.push( J( T.checkCoveringInvariant() ) );
    valid.push( J( T.checkSeparatingInvariant() ) ); valid.push( J( T.isValid() ) );
    r.set( "points", ps ).set( "levels", lv ).set( "toLevel", tl ).set( "level", J( static_cast<long long>( T.level() ) ) );
    r.set( "valid", valid );
    out.push( r );
  }
  return out;
}

int main( int argc, char** argv )
{
  return run( argc, argv, handle );
}
