#ifndef VERIF_STANDIN_KOKKOS_DYNRANKVIEW_HPP
#define VERIF_STANDIN_KOKKOS_DYNRANKVIEW_HPP
#include <Kokkos_Core.hpp>
#endif
