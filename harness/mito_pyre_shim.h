// Force-included by every harness of /verif (never part of /repo).
// The pyre release installed here has no pyre::tensor::traits::transpose, which mito::functions
// and everything above it (geometry, mesh, fem, io, ...) names; this supplies it, so that all of
// mito's headers compile. It changes no mito code.
#pragma once
#define HAVE_TENSOR
#define HAVE_COMPACT_PACKINGS
#include <pyre/tensor.h>
#include <type_traits>
namespace pyre::tensor::traits {
    template <class T>
    struct transpose;
    template <int D1, int D2, typename T, class P>
    struct transpose<pyre::tensor::matrix_t<D1, D2, T, P>> {
        using type = pyre::tensor::matrix_t<D2, D1, T, P>;
    };
}
