"""The check of the property about storage layouts: M01."""
import storages, vf


def M01():
    ch = vf.Check('M01')
    ch.model(vf.tlc('Storage'), 'Storage, all users, death at any step, twice')
    ch.cov['bounds'] = 'Storage: exhaustive; recorded: death at up to 3 random changes'
    storages.check(ch, vf.scaled(520, 9000))
    ch.finish()
