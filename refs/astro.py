"""Reference fragments, interpreted by the analyser (never executed)."""


def precess_astropy(ra, dec, mjd):
    from astropy.coordinates import SkyCoord, FK5
    import astropy.time
    c = SkyCoord(ra, dec, frame='icrs', unit='deg').transform_to(FK5(equinox=astropy.time.Time(mjd, format="mjd")))
    return c.ra.value, c.dec.value


def unprecess_astropy(ra, dec, mjd):
    from astropy.coordinates import SkyCoord, FK5
    import astropy.time
    c = SkyCoord(ra, dec, frame=FK5(equinox=astropy.time.Time(mjd, format="mjd")), unit='deg').transform_to('icrs')
    return c.ra.value, c.dec.value


def aberr_astropy(ra, dec, mjd):
    from astropy.coordinates import SkyCoord, GCRS
    import astropy.time
    c = SkyCoord(ra, dec, frame='icrs', unit='deg').transform_to(GCRS(obstime=astropy.time.Time(mjd, format="mjd")))
    return c.ra.value, c.dec.value


def fp2radec(x, y, fm, fp2tan, sky):
    pass
