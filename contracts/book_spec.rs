// ---- the two sides of the book (R13: a loaded account is a borrow of its contents) ----------------------
//@type RefMut<'a, BookSide> => &'a mut BookSide
//@item state/orderbook/book.rs Orderbook
pub struct Books { pub bids: BookSide, pub asks: BookSide }
pub open spec fn books(b: Orderbook) -> Books { Books { bids: *b.bids, asks: *b.asks } }
pub open spec fn book_wf(b: Books) -> bool { bwf(b.bids) && bwf(b.asks) && side_of(b.bids) == Side::Bid && side_of(b.asks) == Side::Ask }
pub open spec fn side_book(b: Books, s: Side) -> BookSide { if s == Side::Bid { b.bids } else { b.asks } }
pub open spec fn inv_side(s: Side) -> Side { if s == Side::Bid { Side::Ask } else { Side::Bid } }
/// still the same two accounts
#[verifier::prophetic]
pub open spec fn same_books(a: Orderbook, b: Orderbook) -> bool { *final(a.bids) == *final(b.bids) && *final(a.asks) == *final(b.asks) }
