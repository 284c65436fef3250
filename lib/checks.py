"""property -> check function"""
import c_fault
import c_mpi
import c_pk
import c_sym

TABLE = {}
TABLE.update(c_fault.TABLE)
TABLE.update(c_mpi.TABLE)
TABLE.update(c_pk.TABLE)
TABLE.update(c_sym.TABLE)


def run(pid, ctx):
    return TABLE[pid](ctx)
