include!("h.rs");
fn main() {
    let mut w = World::new();
    let (a, _) = w.user(20); let (b, _) = w.user(21); let (c, _) = w.user(22);
    w.fill(1_000_000, T0 + 100 * DAY).unwrap();
    w.deposit(&a, 100, LockupPeriod::ThreeMonths, &a).unwrap();
    w.deposit(&b, 100, LockupPeriod::Flex, &b).unwrap();
    w.deposit(&c, 1000, LockupPeriod::Flex, &c).unwrap();
    w.days(1); w.distribute().unwrap(); w.days(1);
    println!("claim {:?} total {}", w.claim(&a), w.total());
    // F1: b had 100 of 1300 during the day
    w.days(1); w.distribute().unwrap(); w.days(1);
    let mut w1 = World::new(); 
    let (a, _) = w1.user(20); let (b, _) = w1.user(21); let (c, _) = w1.user(22);
    w1.fill(1_000_000, T0 + 100 * DAY).unwrap();
    w1.deposit(&a, 100, LockupPeriod::Flex, &a).unwrap();
    w1.deposit(&b, 100, LockupPeriod::Flex, &b).unwrap();
    w1.days(1); w1.distribute().unwrap(); w1.days(1);
    println!("honest b accrues {:?}", {let c0=w1.m.clone(); let r=w1.claim(&b); w1.m=c0; r});
    w1.deposit(&c, 10_000, LockupPeriod::Flex, &b).unwrap();
    println!("F1 b claims {:?} (10000 delegated after distribution)", w1.claim(&b));
    // F2
    let mut w = World::new(); let (a, _) = w.user(20);
    w.deposit(&a, 100, LockupPeriod::ThreeMonths, &a).unwrap();
    let t = w.now(); w.days(5);
    w.extend(&a, LockupPeriod::ThreeMonths, LockupPeriod::SixMonths, t, 100, 0, &a).unwrap();
    println!("F2 pool diffs {:?} mining diffs {:?}", w.pool_diffs(), w.diffs(&a));
    // F3
    let mut w = World::new(); let (a, _) = w.user(20);
    for _ in 0..52 { w.deposit(&a, 100, LockupPeriod::ThreeMonths, &a).unwrap(); w.days(1); }
    println!("F3 diffs {} share {} pool {}", w.diffs(&a).len(), w.share(&a), w.pool_diffs().len());
    // F11
    let mut w = World::new(); let (a, _) = w.user(20); let (b, _) = w.user(21);
    w.fill(1_000_000, T0 + 100 * DAY).unwrap();
    w.deposit(&a, 100, LockupPeriod::Flex, &a).unwrap(); w.deposit(&b, 100, LockupPeriod::Flex, &b).unwrap();
    w.days(1); w.distribute().unwrap(); w.days(1);
    w.decrease(&a, 50).unwrap();
    println!("F11 a {:?} b {:?}", w.claim(&a), w.claim(&b));
}
