// Lengths in an abstract model: conversion and comparison independent of units.
#ifndef UNITS_H
#define UNITS_H
#include "model.h"
#include <algorithm>
#include <array>
namespace
{
const double UNITMM[] = { 0, 25.4, 1.0, 1.0, 304.8, 1609344.0, 1000.0, 1e6, 0.0254, 0.001, 10.0, 2.54e-5 };
const char* UNITNM[] = { "", "IN", "MM", "", "FT", "MI", "M", "KM", "MIL", "UM", "CM", "UIN" };
std::string probs( const PDoc& d ) { std::string o; for( auto& p : d.problems ) o += "  " + p + "\n"; return o; }

// curves in the parameter space of a surface have no physical length
std::vector<char> uvSpace( const std::vector<AEnt>& m )
{
    std::vector<char> uv( m.size(), 0 );
    for( auto& e : m ) if( e.type == 142 && e.params.size() > 2 && e.params[2].i >= 0 ) uv[e.params[2].i] = 1;
    for( size_t k = 0; k < 3; ++k )
        for( size_t i = 0; i < m.size(); ++i ) if( uv[i] && m[i].type == 102 ) for( auto& v : m[i].params ) if( v.k == Val::PTR && v.i >= 0 ) uv[v.i] = 1;
    return uv;
}

// positions of the lengths among the parameters of an entity
bool isLength( const AEnt& e, size_t k )
{
    switch( e.type )
    {
    case 100: case 110: return true;
    case 104: return k >= 6;
    case 122: return k >= 1;
    case 124: return k % 4 == 3;
    case 126: { long n = e.params[0].i + 1, ord = e.params[1].i + 1; size_t b = 6 + n + ord + n; return k >= b && k < b + 3 * n; }
    case 128: { long n1 = e.params[0].i + 1, n2 = e.params[1].i + 1, o1 = e.params[2].i + 1, o2 = e.params[3].i + 1; size_t b = 9 + n1 + o1 + n2 + o2 + n1 * n2; return k >= b && k < b + 3 * n1 * n2; }
    case 154: return k < 5;
    case 164: return k == 1;
    case 408: return k >= 1 && k <= 3;
    case 502: return k >= 1;
    default: return false;
    }
}

struct Scaled { std::vector<AEnt> m; std::vector<std::array<double, 6>> conic; std::vector<double> clen; };

// the same model with lengths multiplied by f; 'n' texts were made on the way
Scaled scaled( const std::vector<AEnt>& m, double f, double res, int n )
{
    Scaled r; r.m = m; r.conic.resize( m.size() ); r.clen.resize( m.size() );
    std::vector<char> uv = uvSpace( m );
    for( size_t i = 0; i < m.size(); ++i )
    {
        AEnt& e = r.m[i];
        if( e.type == 104 )
        {
            double L = 0; for( size_t k = 7; k < 11; ++k ) L = std::max( L, fabs( e.params[k].r ) );
            static const int p[6] = { -2, -2, -2, -1, -1, 0 };
            for( size_t k = 0; k < 6; ++k ) { r.conic[i][k] = e.params[k].r * pow( f, p[k] ); e.params[k] = Val(); }
            r.clen[i] = L * f;
        }
        for( size_t k = 0; k < e.params.size(); ++k )
        {
            Val& v = e.params[k];
            if( v.k != Val::REAL ) continue;
            bool len = isLength( m[i], k ) && !uv[i];
            double p = fabs( v.r );
            if( len ) { v.tol = n * ( f * std::max( res, p * 4e-15 ) + 1e-13 * p * f ); v.r *= f; }
            else if( uv[i] ) v.tol = n * std::max( v.tol, 6e-6 * p + 1.001e-8 );
            else if( e.type == 314 ) v.tol = n * 0.1;
            else if( e.type == 128 || e.type == 126 ) v.tol = n * std::max( std::min( v.tol, 1e-8 ), p * 1e-6 );
            else v.tol = n * 1e-9;                             // angles, directions, rotations, factors
        }
    }
    return r;
}

std::string compareScaled( const Scaled& x, const PDoc& d )
{
    std::string r = compareDoc( x.m, d );
    if( r.size() ) return r;
    size_t n = 0;
    for( size_t i = 0; i < x.m.size(); ++i )
    {
        if( x.m[i].dead ) continue;
        const PEnt& e = d.ents[n++];
        if( e.type != 104 ) continue;
        double g[6], w[6], L = x.clen[i], mx = 0; static const int p[6] = { 2, 2, 2, 1, 1, 0 };
        int big = 0;
        for( int k = 0; k < 6; ++k )
        {
            double v = 0; if( !e.params[k + 1].empty() && !tokReal( e.params[k + 1], v, false ) ) return "conic coefficient '" + e.params[k + 1].s + "' is not a number";
            g[k] = v * pow( L, p[k] ); w[k] = x.conic[i][k] * pow( L, p[k] );
            if( fabs( w[k] ) > mx ) { mx = fabs( w[k] ); big = k; }
        }
        double q = g[big] != 0 ? w[big] / g[big] : 0;
        for( int k = 0; k < 6; ++k )
            if( !( fabs( g[k] * q - w[k] ) <= 1e-7 * mx ) )
                return strf( "entity #%zu (type 104): coefficient %c is %s, which is not the same conic (expected %.17g up to a common factor)", i, 'A' + k, e.params[k + 1].s.c_str(), x.conic[i][k] );
    }
    return "";
}


// multiplies all lengths
void multiply( std::vector<AEnt>& m, double f )
{
    std::vector<char> uv = uvSpace( m );
    for( size_t i = 0; i < m.size(); ++i )
    {
        AEnt& e = m[i];
        if( uv[i] ) continue;
        if( e.type == 104 ) { e.params[3].r *= f; e.params[4].r *= f; e.params[5].r *= f * f; }
        for( size_t k = 0; k < e.params.size(); ++k ) if( e.params[k].k == Val::REAL && isLength( e, k ) ) e.params[k].r *= f;
    }
}
}
#endif
