//! Which worlds decide which property.

use crate::core::World;
use crate::worlds::*;
use std::sync::OnceLock;

pub struct Check {
    pub id: &'static str,
    /// The worlds and how many runs of each the quick tier makes.
    pub worlds: Vec<(&'static dyn World, u64)>,
    pub thorough_factor: f64,
}

pub fn checks() -> &'static [Check] {
    static ALL: OnceLock<Vec<Check>> = OnceLock::new();
    ALL.get_or_init(build)
}

fn build() -> Vec<Check> {
    vec![
        Check {
            id: "C01",
            worlds: vec![
                (&kalman::Linear(kalman::Oracle::Twin), 60000),
                (&kalman::Extended(kalman::Oracle::Twin), 60000),
                (&kalman::Unscented(kalman::Oracle::Twin), 60000),
                (&imu::ErrorState(kalman::Oracle::Twin), 30000),
                (&imu::Attitude(kalman::Oracle::Twin), 60000),
                (&particles::Particles(kalman::Oracle::Twin), 30000),
            ],
            thorough_factor: 100.0,
        },
        Check {
            id: "C02",
            worlds: vec![
                (&kalman::Linear(kalman::Oracle::Textbook), 60000),
                (&kalman::Extended(kalman::Oracle::Textbook), 60000),
                (&kalman::Unscented(kalman::Oracle::Textbook), 60000),
                (&kalman::UnscentedDuplicates, 5000),
                (&tracking::Tracker, 20000),
            ],
            thorough_factor: 100.0,
        },
        Check {
            id: "C03",
            worlds: vec![(&imu::ErrorState(kalman::Oracle::Textbook), 15000)],
            thorough_factor: 100.0,
        },
        Check {
            id: "C04",
            worlds: vec![(&imu::Attitude(kalman::Oracle::Textbook), 60000)],
            thorough_factor: 100.0,
        },
        Check {
            id: "C05",
            worlds: vec![(&particles::Particles(kalman::Oracle::Textbook), 60000)],
            thorough_factor: 100.0,
        },
        Check {
            id: "C06",
            worlds: vec![(&localizer::Localizer, 40000)],
            thorough_factor: 100.0,
        },
        Check {
            id: "C07",
            worlds: vec![(&random::OwnSource, 200000),
                (&random::Generators, 200000)],
            thorough_factor: 100.0,
        },
        Check {
            id: "C22",
            worlds: vec![
                (&grid::Grid, 40000),
            ],
            thorough_factor: 100.0,
        },
        Check {
            id: "C09",
            worlds: vec![
                (&signals::PID_WORLD, 800000),
            ],
            thorough_factor: 100.0,
        },
        Check {
            id: "C10",
            worlds: vec![
                (&signals::RECURSIVE_WORLD, 600000),
            ],
            thorough_factor: 100.0,
        },
        Check {
            id: "C11",
            worlds: vec![
                (&signals::WINDOW_WORLD, 600000),
            ],
            thorough_factor: 100.0,
        },
        Check {
            id: "C12",
            worlds: vec![
                (&signals::CONDITIONING_WORLD, 600000),
            ],
            thorough_factor: 100.0,
        },
        Check {
            id: "C13",
            worlds: vec![
                (&signals::ROTOR_WORLD, 400000),
            ],
            thorough_factor: 100.0,
        },
        Check {
            id: "C14",
            worlds: vec![
                (&motion::ODOMETRY_WORLD, 600000),
            ],
            thorough_factor: 100.0,
        },
        Check {
            id: "C15",
            worlds: vec![
                (&motion::PATH_WORLD, 600000),
            ],
            thorough_factor: 100.0,
        },
        Check {
            id: "C16",
            worlds: vec![
                (&motion::PROFILE_WORLD, 600000),
            ],
            thorough_factor: 100.0,
        },
        Check {
            id: "C08",
            worlds: vec![
                (&estimators::ALONE_WORLD, 300000),
            ],
            thorough_factor: 100.0,
        },
        Check {
            id: "C17",
            worlds: vec![
                (&integrate::Integrators, 400000),
            ],
            thorough_factor: 100.0,
        },
        Check {
            id: "C18",
            worlds: vec![
                (&roots::Roots, 4000000),
            ],
            thorough_factor: 100.0,
        },
        Check {
            id: "C19",
            worlds: vec![
                (&fit::Fits, 200000),
            ],
            thorough_factor: 100.0,
        },
        Check {
            id: "C21",
            worlds: vec![
                (&ik::Servo, 20000),
            ],
            thorough_factor: 100.0,
        },
        Check {
            id: "C27",
            worlds: vec![
                (&avoid::Avoid, 500000),
            ],
            thorough_factor: 100.0,
        },
        Check {
            id: "C23",
            worlds: vec![
                (&models::Mjcf, 50000),
                (&models::Urdf, 50000),
            ],
            thorough_factor: 100.0,
        },
        Check {
            id: "C28",
            worlds: vec![
                (&body::Body, 400000),
            ],
            thorough_factor: 100.0,
        },
        Check {
            id: "C24",
            worlds: vec![
                (&regulator::Loop, 50000),
                (&regulator::Patient, 100000),
            ],
            thorough_factor: 100.0,
        },
        Check {
            id: "C25",
            worlds: vec![
                (&drone::Commands, 400000),
                (&drone::Drone, 2500),
            ],
            thorough_factor: 100.0,
        },
        Check {
            id: "C26",
            worlds: vec![
                (&calls::Calls, 60000),
                (&calls::Steady, 6000),
                (&calls::Nested, 60),
                (hostile::Hostile::over(&kalman::Linear(kalman::Oracle::Twin)), 3000),
                (hostile::Hostile::over(&kalman::Extended(kalman::Oracle::Twin)), 3000),
                (hostile::Hostile::over(&kalman::Unscented(kalman::Oracle::Twin)), 3000),
                (hostile::Hostile::over(&imu::ErrorState(kalman::Oracle::Twin)), 1500),
                (hostile::Hostile::over(&imu::Attitude(kalman::Oracle::Twin)), 3000),
                (hostile::Hostile::over(&particles::Particles(kalman::Oracle::Twin)), 1500),
                (hostile::Hostile::over(&kalman::Linear(kalman::Oracle::Textbook)), 3000),
                (hostile::Hostile::over(&kalman::Extended(kalman::Oracle::Textbook)), 3000),
                (hostile::Hostile::over(&kalman::Unscented(kalman::Oracle::Textbook)), 3000),
                (hostile::Hostile::over(&kalman::UnscentedDuplicates), 500),
                (hostile::Hostile::over(&tracking::Tracker), 1000),
                (hostile::Hostile::over(&imu::ErrorState(kalman::Oracle::Textbook)), 750),
                (hostile::Hostile::over(&imu::Attitude(kalman::Oracle::Textbook)), 3000),
                (hostile::Hostile::over(&particles::Particles(kalman::Oracle::Textbook)), 3000),
                (hostile::Hostile::over(&localizer::Localizer), 2000),
                (hostile::Hostile::over(&random::OwnSource), 10000),
                (hostile::Hostile::over(&random::Generators), 10000),
                (hostile::Hostile::over(&grid::Grid), 2000),
                (hostile::Hostile::over(&signals::PID_WORLD), 40000),
                (hostile::Hostile::over(&signals::RECURSIVE_WORLD), 30000),
                (hostile::Hostile::over(&signals::WINDOW_WORLD), 30000),
                (hostile::Hostile::over(&signals::CONDITIONING_WORLD), 30000),
                (hostile::Hostile::over(&signals::ROTOR_WORLD), 20000),
                (hostile::Hostile::over(&motion::ODOMETRY_WORLD), 30000),
                (hostile::Hostile::over(&motion::PATH_WORLD), 30000),
                (hostile::Hostile::over(&motion::PROFILE_WORLD), 30000),
                (hostile::Hostile::over(&estimators::ALONE_WORLD), 15000),
                (hostile::Hostile::over(&integrate::Integrators), 20000),
                (hostile::Hostile::over(&roots::Roots), 200000),
                (hostile::Hostile::over(&fit::Fits), 10000),
                (hostile::Hostile::over(&ik::Servo), 1000),
                (hostile::Hostile::over(&avoid::Avoid), 25000),
                (hostile::Hostile::values(&models::Mjcf), 2500),
                (hostile::Hostile::values(&models::Urdf), 2500),
                (hostile::Hostile::over(&body::Body), 20000),
                (hostile::Hostile::over(&regulator::Loop), 2500),
                (hostile::Hostile::over(&drone::Commands), 20000),
                (hostile::Hostile::over(&drone::Drone), 500),
                (hostile::Hostile::over(&guard::Posing), 5000),
                (hostile::Hostile::over(&guard::Guard), 10000),
                (hostile::Hostile::over(&plan::Flight), 5000),
                (hostile::Hostile::over(&frames::Tree), 20000),
                (hostile::Hostile::over(&tally::Tally), 10000),
                (hostile::Hostile::over(&slopes::Slopes), 15000),
                (hostile::Hostile::over(&ledger::Ledger), 10000),
                (hostile::Hostile::over(&algebra::Algebra), 30000),
            ],
            thorough_factor: 100.0,
        },
        Check {
            id: "C29",
            worlds: vec![
                (&guard::Posing, 60000),
            ],
            thorough_factor: 100.0,
        },
        Check {
            id: "C30",
            worlds: vec![
                (&guard::Guard, 150000),
            ],
            thorough_factor: 100.0,
        },
        Check {
            id: "C31",
            worlds: vec![
                (&plan::Flight, 60000),
            ],
            thorough_factor: 100.0,
        },
        Check {
            id: "C32",
            worlds: vec![
                (&frames::Tree, 150000),
            ],
            thorough_factor: 100.0,
        },
        Check {
            id: "C33",
            worlds: vec![
                (&held::Held, 150000),
            ],
            thorough_factor: 100.0,
        },
        Check {
            id: "C34",
            worlds: vec![
                (&tally::Tally, 250000),
            ],
            thorough_factor: 100.0,
        },
        Check {
            id: "C35",
            worlds: vec![
                (&slopes::Slopes, 200000),
            ],
            thorough_factor: 100.0,
        },
        Check {
            id: "C36",
            worlds: vec![
                (&ledger::Ledger, 60000),
            ],
            thorough_factor: 100.0,
        },
        Check {
            id: "C37",
            worlds: vec![
                (&algebra::Algebra, 400000),
            ],
            thorough_factor: 100.0,
        },
    ]
}
