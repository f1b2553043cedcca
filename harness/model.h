// Generator of abstract IGES models and builder through the libIGES API.
#ifndef MODEL_H
#define MODEL_H
#include "refiges.h"
#include <core/iges.h>
#include <core/all_entities.h>

struct GenOpts
{
    bool foreign = false;       // include entities which can only come from a file
    bool brep = false;          // B-rep topology (foreign only)
    bool unsupported = false;   // entities unknown to the library (foreign only)
    bool extras = true;         // properties, comments
    bool subfig = true;
    bool xforms = true;
    bool orphans = false;       // API: entities which must be culled
    int  maxThings = 6;
    double lim = 1000.0;
    double res = 1e-8;          // declared minimum resolution
};

std::vector<AEnt> genModel( Src& s, const GenOpts& o );
GlobalVals genGlobals( Src& s, bool foreign );
std::string genText( Src& s, int maxLen );                 // printable characters, biased to trouble
std::string genHeaderLine( Src& s );

// build through the public API; the order of creation is the order of the vector
void buildModel( IGES& ig, const std::vector<AEnt>& m, std::vector<IGES_ENTITY*>& out );
void setGlobals( IGES& ig, const GlobalVals& g );
double tolFor( double v, double res );
void shuffleModel( Src& s, std::vector<AEnt>& m );
#endif
