//! Registry of every market calendar the library ships (each market variant separately).
use calendar::Calendar;
use qlab_time::date::Date;

/// (is_business_day, is_holiday) asked through the date library's interface, on the concrete type.
fn through<C: qlab_time::calendar::Calendar>(c: &C, d: Date) -> (bool, bool) {
    (c.is_business_day(d), c.is_holiday(d))
}

pub struct Entry {
    /// `Country` or `Country/Market` (`Country/-` is the default market).
    pub name: &'static str,
    pub cal: &'static (dyn Calendar + Sync),
    pub adapter: Box<dyn Fn(Date) -> (bool, bool) + Sync>,
}

macro_rules! e {
    ($n:expr, $c:expr) => {
        Entry { name: $n, cal: Box::leak(Box::new($c)), adapter: Box::new(|d| through(&$c, d)) }
    };
}

pub fn all() -> Vec<Entry> {
    vec![
        e!("Argentina", calendar::argentina::Argentina),
        e!("Botswana", calendar::botswana::Botswana),
        e!("Chile", calendar::chile::Chile),
        e!("China", calendar::china::China),
        e!("CzechRepublic", calendar::czechrepublic::CzechRepublic),
        e!("Denmark", calendar::denmark::Denmark),
        e!("Finland", calendar::finland::Finland),
        e!("HongKong", calendar::hongkong::HongKong),
        e!("Hungary", calendar::hungary::Hungary),
        e!("Iceland", calendar::iceland::Iceland),
        e!("India", calendar::india::India),
        e!("Indonesia", calendar::indonesia::Indonesia),
        e!("Israel", calendar::israel::Israel),
        e!("Japan", calendar::japan::Japan),
        e!("Mexico", calendar::mexico::Mexico),
        e!("NewZealand", calendar::newzealand::NewZealand),
        e!("Norway", calendar::norway::Norway),
        e!("Poland", calendar::poland::Poland),
        e!("Romania", calendar::romania::Romania),
        e!("Singapore", calendar::singapore::Singapore),
        e!("Slovakia", calendar::slovakia::Slovakia),
        e!("SouthAfrica", calendar::southafrica::SouthAfrica),
        e!("SouthKorea", calendar::southkorea::SouthKorea),
        e!("Sweden", calendar::sweden::Sweden),
        e!("Switzerland", calendar::switzerland::Switzerland),
        e!("Taiwan", calendar::taiwan::Taiwan),
        e!("Target", calendar::target::Target),
        e!("Thailand", calendar::thailand::Thailand),
        e!("Turkey", calendar::turkey::Turkey),
        e!("Ukraine", calendar::ukraine::Ukraine),
        e!("WeekendsOnly", calendar::weekendsonly::WeekendsOnly),
        e!("Australia/-", calendar::australia::Australia { market: None }),
        e!("Australia/Settlement", calendar::australia::Australia { market: Some(calendar::australia::AustraliaMarket::Settlement) }),
        e!("Australia/ASX", calendar::australia::Australia { market: Some(calendar::australia::AustraliaMarket::ASX) }),
        e!("Austria/-", calendar::austria::Austria { market: None }),
        e!("Austria/Settlement", calendar::austria::Austria { market: Some(calendar::austria::AustriaMarket::Settlement) }),
        e!("Austria/Exchange", calendar::austria::Austria { market: Some(calendar::austria::AustriaMarket::Exchange) }),
        e!("Brazil/-", calendar::brazil::Brazil { market: None }),
        e!("Brazil/Settlement", calendar::brazil::Brazil { market: Some(calendar::brazil::BrazilMarket::Settlement) }),
        e!("Brazil/Exchange", calendar::brazil::Brazil { market: Some(calendar::brazil::BrazilMarket::Exchange) }),
        e!("Canada/-", calendar::canada::Canada { market: None }),
        e!("Canada/Settlement", calendar::canada::Canada { market: Some(calendar::canada::CanadaMarket::Settlement) }),
        e!("Canada/TSX", calendar::canada::Canada { market: Some(calendar::canada::CanadaMarket::TSX) }),
        e!("France/-", calendar::france::France { market: None }),
        e!("France/Settlement", calendar::france::France { market: Some(calendar::france::FranceMarket::Settlement) }),
        e!("France/Exchange", calendar::france::France { market: Some(calendar::france::FranceMarket::Exchange) }),
        e!("Germany/-", calendar::germany::Germany { market: None }),
        e!("Germany/Settlement", calendar::germany::Germany { market: Some(calendar::germany::GermanyMarket::Settlement) }),
        e!("Germany/FrankfurtStockExchange", calendar::germany::Germany { market: Some(calendar::germany::GermanyMarket::FrankfurtStockExchange) }),
        e!("Germany/Xetra", calendar::germany::Germany { market: Some(calendar::germany::GermanyMarket::Xetra) }),
        e!("Germany/Eurex", calendar::germany::Germany { market: Some(calendar::germany::GermanyMarket::Eurex) }),
        e!("Germany/Euwax", calendar::germany::Germany { market: Some(calendar::germany::GermanyMarket::Euwax) }),
        e!("Italy/-", calendar::italy::Italy { market: None }),
        e!("Italy/Settlement", calendar::italy::Italy { market: Some(calendar::italy::ItalyMarket::Settlement) }),
        e!("Italy/Exchange", calendar::italy::Italy { market: Some(calendar::italy::ItalyMarket::Exchange) }),
        e!("Russia/-", calendar::russia::Russia { market: None }),
        e!("Russia/Settlement", calendar::russia::Russia { market: Some(calendar::russia::RussiaMarket::Settlement) }),
        e!("Russia/Exchange", calendar::russia::Russia { market: Some(calendar::russia::RussiaMarket::Exchange) }),
        e!("UnitedKingdom/-", calendar::unitedkingdom::UnitedKingdom { market: None }),
        e!("UnitedKingdom/Settlement", calendar::unitedkingdom::UnitedKingdom { market: Some(calendar::unitedkingdom::UnitedKingdomMarket::Settlement) }),
        e!("UnitedKingdom/Exchange", calendar::unitedkingdom::UnitedKingdom { market: Some(calendar::unitedkingdom::UnitedKingdomMarket::Exchange) }),
        e!("UnitedKingdom/Metals", calendar::unitedkingdom::UnitedKingdom { market: Some(calendar::unitedkingdom::UnitedKingdomMarket::Metals) }),
        e!("UnitedStates/-", calendar::unitedstates::UnitedStates { market: None }),
        e!("UnitedStates/Settlement", calendar::unitedstates::UnitedStates { market: Some(calendar::unitedstates::UnitedStatesMarket::Settlement) }),
        e!("UnitedStates/Libor", calendar::unitedstates::UnitedStates { market: Some(calendar::unitedstates::UnitedStatesMarket::Libor) }),
        e!("UnitedStates/NYSE", calendar::unitedstates::UnitedStates { market: Some(calendar::unitedstates::UnitedStatesMarket::NYSE) }),
        e!("UnitedStates/GovernmentBond", calendar::unitedstates::UnitedStates { market: Some(calendar::unitedstates::UnitedStatesMarket::GovernmentBond) }),
        e!("UnitedStates/SOFR", calendar::unitedstates::UnitedStates { market: Some(calendar::unitedstates::UnitedStatesMarket::SOFR) }),
        e!("UnitedStates/NERC", calendar::unitedstates::UnitedStates { market: Some(calendar::unitedstates::UnitedStatesMarket::NERC) }),
        e!("UnitedStates/FederalReserve", calendar::unitedstates::UnitedStates { market: Some(calendar::unitedstates::UnitedStatesMarket::FederalReserve) }),
    ]
}
