#ifndef POLYSIM_CLASSIFY_HH
#define POLYSIM_CLASSIFY_HH
#include "geom.hh"
namespace psim {
// Clips every Voronoi cell by the domain: returns the largest number of pieces
// any cell falls into (extra: pieces beyond one per cell, over all cells), and the shortest edge of the result.
int clippedShape(const std::vector<P2>& gens, const std::vector<Poly>& loops, double& shortest, int* extra = 0, std::vector<P2>* verts = 0);
// Which cells touch inside the domain.
void clippedTouch(const std::vector<P2>& gens, const std::vector<Poly>& loops, std::vector<std::vector<char> >& touch);
bool adoptable(const std::vector<P2>& gens, const std::vector<Poly>& loops);
// Areas of the Voronoi cells clipped by the domain, and of the domain.
void clippedAreas(const std::vector<P2>& gens, const std::vector<Poly>& loops, std::vector<double>& cellArea, double& domainArea);
}
#endif
