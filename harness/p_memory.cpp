// C20: whatever a session did, everything it used is returned when its objects are gone.
// The sessions are the cases of the other properties: each is recorded once and then repeated with the same choices while the
// memory in use is measured before and after.
#include "pbt.h"
#include <algorithm>

namespace {

std::vector<const Property*> among( const std::vector<std::string>& ids )
{
    std::vector<const Property*> r;
    for( auto& p : registry() ) if( std::find( ids.begin(), ids.end(), p.id ) != ids.end() || std::find( ids.begin(), ids.end(), p.id + "/" + p.sub ) != ids.end() ) r.push_back( &p );
    std::sort( r.begin(), r.end(), []( const Property* a, const Property* b ) { return a->id + "/" + a->sub < b->id + "/" + b->sub; } );
    return r;
}

void balance( Src& s, Ctx& c, const std::vector<const Property*>& subs )
{
    const Property& p = *s.pick( subs );
    std::string name = p.id + "/" + p.sub;
    size_t from = s.recorded();
    try { p.run( s, c ); }
    catch( const Failure& ) { c.labels.clear(); c.label( "skipped: the session itself fails " + p.id ); c.nontrivial = false; return; }
    c.labels.clear(); c.label( name );
    if( !c.nontrivial ) return;
    std::vector<uint32_t> rec = s.since( from );
    bool fails = false;
    size_t l = leak( [&]() {
        Src z( rec ); Ctx d; d.prop = c.prop; d.tier = c.tier; d.scratch = c.scratch; d.thorough = c.thorough;
        try { p.run( z, d ); } catch( const Failure& ) { fails = true; }
    } );
    if( fails ) { c.label( "skipped: the session is not repeatable " + p.id ); c.nontrivial = false; return; }
    c.desc = name + "\n" + c.desc;
    REQ( l == 0, "every repetition of this session (" << name << ") loses " << l << " bytes" );
}

void models( Src& s, Ctx& c ) { static const auto v = among( { "C01", "C02", "C03", "C04", "C05", "C06", "C07" } ); balance( s, c, v ); }
void shapes( Src& s, Ctx& c ) { static const auto v = among( { "C10", "C12", "C13", "C14", "C15" } ); balance( s, c, v ); }
void boards( Src& s, Ctx& c ) { static const auto v = among( { "C08", "C16", "C18", "C19", "C21" } ); balance( s, c, v ); }

}

PROPERTY( "C20", "models", "the session is a non-trivial one of its kind and was repeated", 20000, 600000, models );
PROPERTY( "C20", "shapes", "the session is a non-trivial one of its kind and was repeated", 60000, 1500000, shapes );
PROPERTY( "C20", "boards", "the session is a non-trivial one of its kind and was repeated", 8000, 300000, boards );
