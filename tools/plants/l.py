plant('C24-time-compound','C24',
 'elite education by time with several hundred moves',
 'each update of the temperature cools what is left instead of the start temperature, so it is zero long before the end',
 [(I+'ruin_recreate/schedule.rs','''            let t = self.elapsed();
            self.temp = ((t * -COOLING_FACTOR).exp() - t * MIN_VALUE) * self.start_temp;
            self.iterations_since_update = 0;''','''            let t = self.elapsed();
            self.temp *= (t * -COOLING_FACTOR).exp() - t * MIN_VALUE;
            self.iterations_since_update = 0;''')],
 r"""
use hybridcvrp::solver::improvement::{Acceptance, TemperatureAcceptance, TimeSchedule};
use std::time::Duration;
fn main() {
    let mut s = TimeSchedule::new(100.0, Duration::from_secs(2));
    let mut seen = 0;
    for _ in 0..100 {
        std::thread::sleep(Duration::from_millis(10));
        for _ in 0..100 {
            Acceptance::update(&mut s);
        }
        let (t, temp) = (s.elapsed(), s.temp());
        let want = 100.0 * ((-2.0 * t).exp() - t * (-2.0f64).exp());
        if t < 0.9 {
            seen += 1;
            if (temp - want).abs() > 12.0 {
                fail(format!("at {} of the time the temperature is {}, to be {}", t, temp, want));
            }
        }
    }
    assert!(seen > 5);
}
""")
plant('C24-time-lags','C24',
 'elite education by time, several epochs',
 'the temperature of a time-based schedule follows the number of its updates, not the clock',
 [(I+'ruin_recreate/schedule.rs','''            let t = self.elapsed();
            self.temp = ((t * -COOLING_FACTOR).exp() - t * MIN_VALUE) * self.start_temp;
            self.iterations_since_update = 0;''','''            let t = self.elapsed();
            // Cool smoothly, the clock may be coarse
            let step = (1.0 - t).max(0.0).min(1.0 / self.update_rate as f64);
            let cooled = ((t * -COOLING_FACTOR).exp() - t * MIN_VALUE) * self.start_temp;
            self.temp = cooled.max(self.temp - step * self.start_temp);
            self.iterations_since_update = 0;''')],
 r"""
use hybridcvrp::solver::improvement::{Acceptance, TemperatureAcceptance, TimeSchedule};
use std::time::Duration;
fn main() {
    let mut s = TimeSchedule::new(100.0, Duration::from_secs(2));
    for _ in 0..8 {
        std::thread::sleep(Duration::from_millis(200));
        for _ in 0..100 {
            Acceptance::update(&mut s);
        }
        let (t, temp) = (s.elapsed(), s.temp());
        let want = 100.0 * ((-2.0 * t).exp() - t * (-2.0f64).exp());
        if t < 0.9 && (temp - want).abs() > 12.0 {
            fail(format!("at {} of the time the temperature is {}, to be {}", t, temp, want));
        }
    }
}
""")
