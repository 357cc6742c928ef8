# Jython has no resource module; the tools import it without using it.
