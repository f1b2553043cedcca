// Faces of a written IGES file: independent evaluation of trimmed surfaces, their boundaries and transformations.
#ifndef SOLID_H
#define SOLID_H
#include "refiges.h"
namespace sol
{
typedef long double LD;
const LD PIL = 3.14159265358979323846264338327950288L;
struct V { LD x = 0, y = 0, z = 0; };
inline V v3( LD x, LD y, LD z ) { V o; o.x = x; o.y = y; o.z = z; return o; }
inline V operator+( V a, V b ) { return v3( a.x + b.x, a.y + b.y, a.z + b.z ); }
inline V operator-( V a, V b ) { return v3( a.x - b.x, a.y - b.y, a.z - b.z ); }
inline V operator*( LD k, V a ) { return v3( k * a.x, k * a.y, k * a.z ); }
inline LD dot( V a, V b ) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V cross( V a, V b ) { return v3( a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x ); }
inline LD len( V a ) { return sqrtl( dot( a, a ) ); }
struct Xf { LD r[3][3] = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } }; V t; };
V app( const Xf& x, V p );
Xf mul( const Xf& a, const Xf& b );                 // a after b
struct Nurbs { int d = 0, n = 0; std::vector<LD> k, w; std::vector<V> c; LD v0 = 0, v1 = 1; V at( LD t ) const; };
// a curve with a parameter running over [0,1]
struct Curve
{
    enum K { LINE, ARC, SPLINE } k = LINE; int ent = -1;
    V a, b;                                         // line
    V c; LD r = 0, a0 = 0, sw = 0; LD zt = 0;       // arc in its definition space
    Nurbs n; Xf x;
    V at( LD t ) const;
    LD length() const;
    LD distTo( V p ) const;                         // lines and arcs
};
struct Surf
{
    int type = 0; Xf x;
    int d1 = 0, d2 = 0, n1 = 0, n2 = 0; std::vector<LD> k1, k2, w; std::vector<V> c;    // 128
    Curve axis, gen;                                // 120
    LD u0 = 0, u1 = 1, v0 = 0, v1 = 1;
    V at( LD u, LD v ) const;
    V normal( LD u, LD v ) const;                   // not normalised
};
struct Loop { std::vector<Curve> b, c; };           // in parameter space, in space
struct Face { int ent = -1, color = 0; Surf s; bool outerGiven = false; Loop outer; std::vector<Loop> inner; };
// every face of the file (trimmed surfaces), without placements; throws a failure if something is not as the standard says
Face face( const PDoc& d, int ent );
std::vector<Face> faces( const PDoc& d );
Xf transformOf( const PDoc& d, int ent );
long ptr( const PDoc& d, int ent, size_t k );       // index of the entity param k points to, -1 for null
LD num( const PDoc& d, int ent, size_t k );
std::string str( const PDoc& d, int ent, size_t k );
// closed loops, boundary on the surface, parameters in range
void checkFace( const Face& f, LD tol );
}
#endif
