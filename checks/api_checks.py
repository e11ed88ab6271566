"""Check of the property about the Python API: A01."""
import apis, vf


def A01():
    ch = vf.Check('A01')
    ch.cov['bounds'] = 'generated sessions; every operator of Core; 10 ways of consuming a pipeline'
    apis.check(ch, vf.scaled(100, 1500), 25)
    ch.finish()
