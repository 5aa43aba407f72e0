// Grids given by face lists only, for code that looks at topology alone.
#ifndef VERIF_FAKEGRID_HPP
#define VERIF_FAKEGRID_HPP
#include <opm/core/grid.h>
#include <vector>
#include <cstring>
struct FakeGrid {
    UnstructuredGrid g; std::vector<int> cf, cfp, fc, ft, nodes, npos, gc;
    std::vector<double> fa, fn, fcen, cc, cv, nc;
    // faces: flat pairs of cells
    FakeGrid(int n, const std::vector<int>& pairs, int dim = 3) : fc(pairs)
    {
        std::memset(&g, 0, sizeof g);
        int nf = pairs.size()/2;
        std::vector<std::vector<int> > cl(n);
        for (int f = 0; f < nf; ++f) for (int k = 0; k < 2; ++k) if (fc[2*f+k] >= 0 && (k == 0 || fc[2*f] != fc[2*f+1])) cl[fc[2*f+k]].push_back(f);
        cfp.push_back(0); for (int c = 0; c < n; ++c) { cf.insert(cf.end(), cl[c].begin(), cl[c].end()); cfp.push_back(cf.size()); }
        ft.assign(cf.size(), 0); npos.assign(nf + 1, 0); cf.push_back(0); fc.push_back(0);
        fa.assign(nf + 1, 1.0); fn.assign(dim*(nf + 1), 0.0); fcen.assign(dim*(nf + 1), 0.0); cc.assign(dim*(n + 1), 0.0); cv.assign(n + 1, 1.0); nc.assign(dim, 0.0);
        nodes.push_back(0); gc.assign(n + 1, 0); for (int c = 0; c < n; ++c) gc[c] = c;
        g.dimensions = dim; g.number_of_cells = n; g.number_of_faces = nf; g.number_of_nodes = 0;
        g.face_nodes = nodes.data(); g.face_nodepos = npos.data(); g.face_cells = fc.data(); g.cell_faces = cf.data(); g.cell_facepos = cfp.data();
        g.node_coordinates = nc.data(); g.face_centroids = fcen.data(); g.face_areas = fa.data(); g.face_normals = fn.data(); g.cell_centroids = cc.data(); g.cell_volumes = cv.data();
        g.global_cell = gc.data(); g.cell_facetag = ft.data();
        g.cartdims[0] = n; g.cartdims[1] = g.cartdims[2] = 1;
    }
};
#endif
