//! The settings path of the program: config.yml, command line, merge; prints the settings in force.
use hybridcvrp::cli::Args;
use hybridcvrp::config::Config;
fn main() {
    let mut config = Config::load_yaml_file("config.yml");
    let args = Args::parse();
    config.update_from_args(&args);
    print!("{}", serde_yaml::to_string(&config).expect("settings"));
    // keep the seams linked in
    let _ = simhook::draws();
}
