pub mod algebra;
pub mod avoid;
pub mod body;
pub mod calls;
pub mod comps;
pub mod drone;
pub mod estimators;
pub mod fit;
pub mod frames;
pub mod grid;
pub mod guard;
pub mod held;
pub mod hostile;
pub mod ik;
pub mod imu;
pub mod integrate;
pub mod kalman;
pub mod ledger;
pub mod localizer;
pub mod models;
pub mod motion;
pub mod particles;
pub mod plan;
pub mod random;
pub mod regulator;
pub mod roots;
pub mod signals;
pub mod slopes;
pub mod tally;
pub mod tracking;
