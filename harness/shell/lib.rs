// nothing here: this package exists to build the real shell binary
