// MersenneTwister: the state is the generator and what the normal distribution has saved.
// The standard library's generator and distributions are uninterpreted functions of that state (assumed contracts):
ufunc mt_seed(int): int;                       // std::mt19937::seed
ufunc nd_a(int): real;                         // parameters of a distribution (mean / lower end, deviation / upper end)
ufunc nd_b(int): real;
ufunc nd_saved(int): int;                      // the saved variate of a normal distribution; 0 when there is none
ufunc nd_draw(int, int): real;                 // standard normal variate from (saved, generator)
ufunc nd_next(int, int): int;
ufunc nd_gen(int, int): int;
ufunc ur_draw(int): real;
ufunc ur_gen(int): int;
ufunc ui_draw(int, int, int): int;
ufunc ui_gen(int, int, int): int;
pred R_ok(r) = nd_a(r.default_uniform_real_distribution) == 0 && nd_b(r.default_uniform_real_distribution) == 1 && nd_a(r.default_normal_distribution) == 0 && nd_b(r.default_normal_distribution) == 1;
contract MersenneTwister::MersenneTwister() sig "void ()" {
  prop C20;
  ensures R_ok(this);
  ensures [seeded] generator == mt_seed(seed) && nd_saved(default_normal_distribution) == 0;
}
contract MersenneTwister::setSeed(seed_) {
  prop C20;
  requires R_ok(this);
  assigns generator, seed, default_normal_distribution, default_uniform_real_distribution;
  ensures R_ok(this);
  ensures [restarted] seed == seed_ && generator == mt_seed(seed_) && nd_saved(default_normal_distribution) == 0;
}
contract MersenneTwister::getSeed() {
  prop C20;
  ensures [seed] result == seed;
}
contract MersenneTwister::operator()() {
  prop C20;
  requires R_ok(this);
  assigns generator, default_uniform_real_distribution;
  ensures R_ok(this);
  ensures [range] 0 <= result <= 1;
  ensures [deterministic] result == ur_draw(old(generator)) && generator == ur_gen(old(generator));
}
contract MersenneTwister::integer(lo, hi) {
  prop C20;
  requires lo <= hi;
  assigns generator;
  ensures [range] lo <= result <= hi;
  ensures [deterministic] result == ui_draw(lo, hi, old(generator)) && generator == ui_gen(lo, hi, old(generator));
}
contract MersenneTwister::normal() sig "double ()" {
  prop C20;
  requires R_ok(this);
  assigns generator, default_normal_distribution;
  ensures R_ok(this);
  ensures [deterministic] result == nd_draw(nd_saved(old(default_normal_distribution)), old(generator));
  ensures [state] generator == nd_gen(nd_saved(old(default_normal_distribution)), old(generator)) && nd_saved(default_normal_distribution) == nd_next(nd_saved(old(default_normal_distribution)), old(generator));
}
contract MersenneTwister::normal(mean, stdDev) sig "double (double, double)" {
  prop C20; prop C22;
  assigns generator;
  ensures [scaled] result == mean + stdDev*nd_draw(0, old(generator)) && generator == nd_gen(0, old(generator));
}
