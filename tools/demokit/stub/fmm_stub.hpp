// Stand-in for ScalFMM (absent from this sandbox): same interface, exact O(N*M) direct summation of
// the 1/r kernel, with ScalFMM's convention that coincident points do not interact.  Written for
// verification only: deterministic, single threaded.
#ifndef FMM_STUB_HPP
#define FMM_STUB_HPP
#include <cmath>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <utility>
#include <vector>
#include <omp.h>
typedef long long FSize;
extern "C" void __attribute__((weak)) verif_event(const char *kind);  // defined by the harness, if any
enum FParticleType { FParticleTypeSource, FParticleTypeTarget };
template <class FReal> struct FPoint
    {
    FReal x, y, z;
    FPoint(FReal a = 0, FReal b = 0, FReal c = 0) : x(a), y(b), z(c) {}
    FReal getX() const { return x; }
    FReal getY() const { return y; }
    FReal getZ() const { return z; }
    };
template <class FReal, int P> struct FTypedRotationCell
    {   // the expansions of a cell accumulate until it is reset
    std::vector<double> local;
    void resetToInitialState() { local.assign(local.size(), 0.); }
    };
template <class FReal> struct FP2PParticleContainerIndexed
    {
    std::vector<FPoint<FReal>> pos;
    std::vector<FSize> idx;
    std::vector<FReal> phys, pot;
    FSize getNbParticles() const { return (FSize) idx.size(); }
    const std::vector<FSize> &getIndexes() const { return idx; }
    FReal *getPhysicalValues() { return phys.data(); }
    const FReal *getPhysicalValues() const { return phys.data(); }
    FReal *getPotentials() { return pot.data(); }
    const FReal *getPotentials() const { return pot.data(); }
    void push(const FPoint<FReal> &p, FSize i, FReal q)
        { pos.push_back(p); idx.push_back(i); phys.push_back(q); pot.push_back(0); }
    };
template <class FReal, class Container> struct FTypedLeaf
    {
    Container src, tgt;
    Container *getSrc() { return &src; }
    Container *getTargets() { return &tgt; }
    };
template <class FReal, class Cell, class Container, class Leaf> struct FOctree
    {
    Leaf leaf;
    Cell cell;
    FReal w;
    FPoint<FReal> c;
    FOctree(int, int, FReal width, FPoint<FReal> center) : w(width), c(center) {}
    void chk(const FPoint<FReal> &p)
        {
        const FReal h = w / 2;
        if (!(std::fabs(p.x - c.x) <= h && std::fabs(p.y - c.y) <= h && std::fabs(p.z - c.z) <= h))
            {   // ScalFMM's octree only accepts particles inside the box
            fprintf(stderr, "FMM-STUB: particle outside the octree box: %g %g %g\n", p.x, p.y, p.z);
            exit(97);
            }
        }
    void insert(const FPoint<FReal> &p, FParticleType t, FSize i, FReal q = 0)
        {
        chk(p);
        (t == FParticleTypeSource ? leaf.src : leaf.tgt).push(p, i, q);
        }
    template <class F> void forEachLeaf(F f) { f(&leaf); }
    template <class F> void forEachCell(F f) { f(&cell); }
    template <class F> void forEachCellLeaf(F f) { f(&cell, &leaf); }
    };
template <class FReal, class Cell, class Container, int P> struct FRotationKernel
    { FRotationKernel(int, FReal, FPoint<FReal>) {} };
template <class Octree, class Cell, class Container, class Kernel, class Leaf>
struct FFmmAlgorithmThreadTsm
    {
    Octree *tree;
    FFmmAlgorithmThreadTsm(Octree *t, Kernel *) : tree(t) {}
    void execute()
        {
        if (verif_event) verif_event("demag");
        auto &S = tree->leaf.src;
        auto &T = tree->leaf.tgt;
        for (size_t i = 0; i < T.pos.size(); i++)
            {
            double v = 0;
            for (size_t j = 0; j < S.pos.size(); j++)
                {
                double x = T.pos[i].x - S.pos[j].x, y = T.pos[i].y - S.pos[j].y,
                       z = T.pos[i].z - S.pos[j].z;
                double r2 = x * x + y * y + z * z;
                if (r2 > 0) v += S.phys[j] / std::sqrt(r2);
                }
            auto &L = tree->cell.local;
            if (L.size() <= i) L.resize(i + 1, 0.);
            L[i] += v;
            T.pot[i] += L[i];
            }
        }
    };
#endif
