// The faces of a solid between two heights over a planar region.
#ifndef PCBSOLID_H
#define PCBSOLID_H
#include "solid.h"
#include "region2d.h"
// a vertical face: its outer boundary has a top, a bottom and two vertical edges
struct Wall { const sol::Face* f; sol::Curve top, bot; };
Wall wallOf( const sol::Face& f, g2::LD top, g2::LD bot, g2::LD tol );
// F are exactly the faces of the solid over R (R[0] the outline, the others holes in it, none of them overlapping)
void checkSolid( const std::vector<sol::Face>& F, const std::vector<g2::Loop>& R, g2::LD top, g2::LD bot, Ctx& c );
#endif
