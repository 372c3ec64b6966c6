#pragma once
#include "vp.h"
template <int DIM>
Grid<double, DIM> vp_grid(const Ext<DIM> &e);
template <>
inline Grid<double, 1> vp_grid<1>(const Ext<1> &e)
{
  return Grid<double, 1>(e.n[0]);
}
template <>
inline Grid<double, 2> vp_grid<2>(const Ext<2> &e)
{
  return Grid<double, 2>(e.n[0], e.n[1]);
}
template <>
inline Grid<double, 3> vp_grid<3>(const Ext<3> &e)
{
  return Grid<double, 3>(e.n[0], e.n[1], e.n[2]);
}
template <int DIM>
static long vp_total(const Ext<DIM> &e)
{
  return ((long)e.n[0] + 2 * (long)e.q[0]) * ((long)e.n[1] + 2 * (long)e.q[1]) * ((long)e.n[2] + 2 * (long)e.q[2]);
}
