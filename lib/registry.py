import p_gen
import p_iga
import p_io
import p_space
import p_spl
import p_util

CHECKS = dict(p_spl.CHECKS, **p_util.CHECKS, **p_io.CHECKS, **p_gen.CHECKS, **p_iga.CHECKS, **p_space.CHECKS)
ASSUMPTIONS = [
    'floating point results may differ from the exact ones by a relative 1e-9 (derivatives 1e-7)',
    'the drivers record the state through the public getters only',
    'TLC, and the exact rational arithmetic of spec/Rat.java, are trusted']
