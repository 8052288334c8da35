// Minimal stand-in so that headers which merely include Sophus can be compiled;
// code which uses Sophus itself is outside what is verified here.
#pragma once
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <memory>
namespace Sophus {
template <class T> struct SO2 { typedef T Tangent; };
template <class T> struct SO3 {
  typedef Eigen::Matrix<T, 3, 1> Tangent;
  Eigen::Matrix<T, 3, 3> matrix() const;
  static Tangent log(const SO3 &);
  static SO3 exp(const Tangent &);
  SO3 inverse() const;
  SO3 operator*(const SO3 &) const;
};
template <class T> struct SE2 { typedef Eigen::Matrix<T, 3, 1> Tangent; static Tangent log(const SE2 &); };
template <class T> struct SE3 {
  typedef Eigen::Matrix<T, 6, 1> Tangent;
  SE3();
  SE3(const Eigen::Quaternion<T> &, const Eigen::Matrix<T, 3, 1> &);
  const Eigen::Matrix<T, 3, 1> &translation() const;
  Eigen::Matrix<T, 3, 1> &translation();
  const Eigen::Quaternion<T> &unit_quaternion() const;
  const SO3<T> &so3() const;
  Eigen::Matrix<T, 3, 3> rotationMatrix() const;
  static Tangent log(const SE3 &);
  static SE3 exp(const Tangent &);
  SE3 inverse() const;
  SE3 operator*(const SE3 &) const;
};
typedef SE3<float> SE3f;
typedef SE3<double> SE3d;
typedef SO3<float> SO3f;
typedef SE2<float> SE2f;
}
