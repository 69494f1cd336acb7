from .. import world


class Base(object):
    level = "exploration"
    runs = {"quick": 2000, "thorough": 50000}
    measure = ""
    real = []
    stub = []
    assumptions = []

    def setup(self):
        import gerber
        import gerber.rs274x
        import gerber.excellon
        import gerber.ipc356
        import gerber.pcb
        import gerber.render.cairo_backend
        import gerber.render.rs274x_backend
        world.install_cairo()
