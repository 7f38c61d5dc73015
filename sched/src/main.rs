//! C09, C27: real threads of the real code under every schedule within a preemption bound (see rt.c).
mod explore;
mod scen;

fn main() {
  if std::env::args().nth(1).as_deref() == Some("--one") {
    explore::one();
    return;
  }
  eng::main(&scen::all());
}
