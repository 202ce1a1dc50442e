// Precompiled header; compiled again with -DPINST= -DP<n> to emit the heavy Eigen
// instantiations once. Contains nothing of OpenGV.
#include <Eigen/Eigen>
#include <Eigen/NonLinearOptimization>
#include <Eigen/NumericalDiff>
#include <vector>
#include <list>
#include <map>
#include <string>
#include <memory>
#include <complex>
#include <iostream>
#include <fstream>
#include <sstream>
#include <iomanip>
#include <limits>
#include <algorithm>
#include <functional>
#include <random>
#ifndef PINST
#define PINST extern
#define PALL
#endif
#define ES(N) PINST template Eigen::EigenSolver<Eigen::Matrix<double,N,N>>& Eigen::EigenSolver<Eigen::Matrix<double,N,N>>::compute(const Eigen::EigenBase<Eigen::Matrix<double,N,N>>&, bool);
#if defined(PALL)||defined(P1)
ES(3)
#endif
#if defined(PALL)||defined(P2)
ES(4)
#endif
#if defined(PALL)||defined(P3)
ES(10)
#endif
#if defined(PALL)||defined(P4)
ES(20)
#endif
#if defined(PALL)||defined(P5)
ES(64)
#endif
#if defined(PALL)||defined(P6)
ES(8)
ES(16)
#endif
#if defined(PALL)||defined(P7)
PINST template Eigen::JacobiSVD<Eigen::MatrixXd>& Eigen::JacobiSVD<Eigen::MatrixXd>::compute(const Eigen::MatrixXd&, unsigned int);
#endif
