"""L01, decided on spec/Listing.tla."""
import vf, listings


def L01():
    ch = vf.Check('L01')
    listings.check(ch)
    ch.finish()
