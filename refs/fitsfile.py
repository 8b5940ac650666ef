"""Stand-in for an opened FITS file: images by number and by name (without regard to case)."""


class Hdu:
    def __init__(self, image):
        self.image = image

    def read(self):
        return self.image


class FITS:
    def __init__(self, hdus, hdu_map):
        self.hdus = hdus
        self.hdu_map = hdu_map

    def __len__(self):
        return len(self.hdus)

    def __getitem__(self, key):
        if isinstance(key, str):
            return self.hdu_map[key.lower()]
        return self.hdus[key]
