// Uses every public query and transformation on a model which came from an untrusted file.
#ifndef EXERCISE_H
#define EXERCISE_H
#include <string>
#include <set>
#include <core/iges.h>
#include <core/all_entities.h>
// which: bit mask of steps to take
enum { EX_HEADERS = 1, EX_UNITS = 2, EX_SCALE = 4, EX_COMPACT = 8, EX_CULL = 16, EX_VICIOUS = 32, EX_WRITE = 64, EX_EXPORT = 128, EX_PICK = 256, EX_REREAD = 512 };
void exerciseModel( IGES& ig, const std::string& out, unsigned which, unsigned unit );
void walkEntity( IGES_ENTITY* e, std::set<IGES_ENTITY*>& seen, int depth );
#endif
