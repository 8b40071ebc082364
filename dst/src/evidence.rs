//! Writes /verif/evidence/<id>.json from what a run measured.

use crate::Stats;
use crate::registry::Check;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

fn list(items: &[String]) -> String {
    format!("[{}]", items.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "))
}

fn map<V: std::fmt::Display>(m: impl Iterator<Item = (String, V)>) -> String {
    format!(
        "{{{}}}",
        m.map(|(k, v)| format!("{}: {v}", esc(&k))).collect::<Vec<_>>().join(", ")
    )
}

fn f(v: f64) -> String {
    if v.is_finite() { format!("{v:.3}") } else { "0".into() }
}

fn put(id: &str, text: &str) {
    let dir = crate::root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{id}.json")), text);
}

pub fn write_killed(id: &str, tier: &str, seed: u64, message: &str) {
    put(
        id,
        &format!(
            "{{\"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": \"exploration\", \"coverage\": {{\"evaluations\": 0, \"distinct_nontrivial\": 0, \"rule\": {}, \"samples\": [{}]}}, \"wall_s\": 0, \"violations\": 1}}\n",
            esc(id),
            esc(tier),
            esc("the run ended the process, so nothing was counted"),
            esc(message)
        ),
    );
}

#[allow(clippy::too_many_arguments)]
pub fn write(
    check: &Check,
    tier: &str,
    seed: u64,
    s: &Stats,
    workers: usize,
    explore_s: f64,
    wall_s: f64,
    violations: usize,
) {
    let about = crate::about::about(check.id);
    let mut samples = s.samples.clone();
    samples.sort();
    samples.truncate(8);
    let hours = (explore_s / 3600.0).max(1e-9);
    let mut out = String::from("{\n");
    let _ = writeln!(out, "  \"property\": {},", esc(check.id));
    let _ = writeln!(out, "  \"tier\": {},", esc(tier));
    let _ = writeln!(out, "  \"seed\": {seed},");
    let _ = writeln!(out, "  \"level\": \"exploration\",");
    let _ = writeln!(out, "  \"coverage\": {{");
    let _ = writeln!(out, "    \"evaluations\": {},", s.runs);
    let _ = writeln!(out, "    \"distinct_nontrivial\": {},", s.shapes.len());
    let _ = writeln!(out, "    \"rule\": {},", esc(&format!("{} One case is one simulated run decided by one seed. It counts as non-trivial when a fault fired or a named probe was reached, and as distinct by the sequence of faults, probes and abstract states it went through.", about.0)));
    let _ = writeln!(out, "    \"samples\": {},", list(&samples));
    let _ = writeln!(out, "    \"runs_with_faults\": {},", s.faulty_runs);
    let _ = writeln!(out, "    \"scheduled_steps\": {},", s.steps);
    let _ = writeln!(out, "    \"simulated_time_s\": {},", f(s.sim_time));
    let _ = writeln!(out, "    \"runs_per_hour\": {},", f(s.runs as f64 / hours));
    let _ = writeln!(out, "    \"seeds_per_hour\": {},", f(s.runs as f64 / hours));
    let _ = writeln!(out, "    \"distinct_abstract_states\": {},", s.states.len());
    let _ = writeln!(out, "    \"faults_fired\": {},", map(s.faults.iter().map(|(k, v)| (k.to_string(), *v))));
    let _ = writeln!(out, "    \"probes_reached\": {},", map(s.probes.iter().map(|(k, v)| (k.to_string(), *v))));
    let _ = writeln!(out, "    \"runs_per_world\": {},", map(s.per_world.iter().map(|(k, v)| (k.to_string(), *v))));
    let _ = writeln!(out, "    \"traces_executed_twice_with_equal_logs\": {},", s.rechecked);
    let _ = writeln!(out, "    \"known_findings_met\": {},", map(s.known.iter().map(|(k, v)| (k.clone(), *v))));
    let _ = writeln!(out, "    \"event_log_digest\": {},", esc(&format!("{:016x}", s.log)));
    let _ = writeln!(out, "    \"workers\": {workers},");
    let _ = writeln!(out, "    \"components_real\": {},", esc(about.1));
    let _ = writeln!(out, "    \"components_simulated\": {}", esc(about.2));
    let _ = writeln!(out, "  }},");
    let _ = writeln!(out, "  \"assumptions\": {},", list(&about.3.iter().map(|s| s.to_string()).collect::<Vec<_>>()));
    let _ = writeln!(out, "  \"wall_s\": {},", f(wall_s));
    let _ = writeln!(out, "  \"violations\": {violations}");
    out.push_str("}\n");
    put(check.id, &out);
}
