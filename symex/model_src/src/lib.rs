//! The robot-model loaders of /repo over the engine's scalar (see build.rs).
pub mod rt {
    pub use multicalc::Numeric;
    pub fn k(v: f64) -> engine::Sym {
        use std::f64::consts as c;
        let pi = <engine::Sym as Numeric>::PI;
        match v {
            _ if v == c::PI => pi,
            _ if v == c::TAU => pi + pi,
            _ if v == c::FRAC_PI_2 => pi * <engine::Sym as Numeric>::HALF,
            _ => <engine::Sym as Numeric>::from_f64(v),
        }
    }
    /// The nearest number in single precision: a function of the number, and nothing more.
    pub fn narrow(v: engine::Sym) -> engine::Sym {
        use engine::cx::Sc;
        <engine::Sym as Sc>::x_fresh_fn(&mut Default::default(), "narrow", &[v])
    }
    /// What `f64` itself offers beyond `Numeric`.
    pub trait Extra: Sized {
        fn to_bits(self) -> u64;
        fn is_sign_negative(self) -> bool;
        fn abs_sub(self, o: Self) -> Self;
        fn total_cmp(&self, o: &Self) -> std::cmp::Ordering;
        fn sin_cos(self) -> (Self, Self);
        fn ln(self) -> Self;
    }
    impl Extra for engine::Sym {
        fn to_bits(self) -> u64 {
            unimplemented!()
        }
        fn is_sign_negative(self) -> bool {
            self < k(0.0)
        }
        fn abs_sub(self, o: Self) -> Self {
            if self > o { self - o } else { k(0.0) }
        }
        fn total_cmp(&self, o: &Self) -> std::cmp::Ordering {
            self.partial_cmp(o).unwrap()
        }
        fn sin_cos(self) -> (Self, Self) {
            (Numeric::sin(self), Numeric::cos(self))
        }
        fn ln(self) -> Self {
            Numeric::log(self)
        }
    }
}
pub mod shim {
    pub use ::multicalc::*;
    /// The scalar a type takes when the source names none.
    pub mod linear_algebra {
        pub use ::multicalc::linear_algebra::*;
        use engine::Sym;
        pub type Vector<const N: usize, T = Sym> = ::multicalc::linear_algebra::Vector<N, T>;
        pub type Vector2D<T = Sym> = ::multicalc::linear_algebra::Vector2D<T>;
        pub type Vector3D<T = Sym> = ::multicalc::linear_algebra::Vector3D<T>;
        pub type Vector6D<T = Sym> = ::multicalc::linear_algebra::Vector6D<T>;
        pub type Matrix<const R: usize, const C: usize, T = Sym> = ::multicalc::linear_algebra::Matrix<R, C, T>;
        pub type Matrix2D<T = Sym> = ::multicalc::linear_algebra::Matrix2D<T>;
        pub type Matrix3D<T = Sym> = ::multicalc::linear_algebra::Matrix3D<T>;
        pub type Matrix4D<T = Sym> = ::multicalc::linear_algebra::Matrix4D<T>;
        pub type Matrix6D<T = Sym> = ::multicalc::linear_algebra::Matrix6D<T>;
    }
    pub mod spatial {
        pub use ::multicalc::spatial::*;
        use engine::Sym;
        pub type Quaternion<T = Sym> = ::multicalc::spatial::Quaternion<T>;
        pub type SO3<T = Sym> = ::multicalc::spatial::SO3<T>;
        pub type SE3<T = Sym> = ::multicalc::spatial::SE3<T>;
        pub type SpatialInertia<T = Sym> = ::multicalc::spatial::SpatialInertia<T>;
    }
    pub mod kinematics {
        pub use ::multicalc::kinematics::*;
        use engine::Sym;
        pub type Joint<T = Sym> = ::multicalc::kinematics::Joint<T>;
        pub type KinematicTree<const J: usize, const C: usize, T = Sym> = ::multicalc::kinematics::KinematicTree<J, C, T>;
    }
}
include!(concat!(env!("OUT_DIR"), "/model.rs"));
