"""A user's own functions and classes, to be made unit-aware through the library."""


def both(D, L=2.0):
    """Two results.

    Parameters
    ----------
    D : float
        Diameter, [m]
    L : float, optional
        Length, [m]

    Returns
    -------
    results : dict
        Results, [-]
    A : float
        Area, [m^2]
    V : float
        Volume, [m^3]
    """
    return {"A": D * L, "V": D * D * L}


def other(V, P, T=300.0):
    """One result and other parameters.

    Parameters
    ----------
    V : float
        Velocity, [m/s]

    Returns
    -------
    q : float
        Something, [Pa]

    Other Parameters
    ----------------
    P : float
        Pressure, [Pa]
    T : float
        Temperature, [K]
    """
    return P + V * V + T


class Box:
    """A box.

    Parameters
    ----------
    a : float
        Side, [m]
    m : float
        Mass, [kg]

    Attributes
    ----------
    V : float
        Volume, [m^3]
    rho : float
        Density, [kg/m^3]
    """

    def __init__(self, a, m):
        self.a = a
        self.m = m
        self.V = a ** 3
        self.rho = m / self.V

    def force(self, g):
        """Weight.

        Parameters
        ----------
        g : float
            Gravity, [m/s^2]

        Returns
        -------
        F : float
            Force, [N]
        """
        return self.m * g

    def sides(self, dx):
        """Sides.

        Parameters
        ----------
        dx : float
            Increment, [m]

        Returns
        -------
        results : dict
            Results, [-]
        s : float
            Side, [m]
        A : float
            Area, [m^2]
        """
        return {"s": self.a + dx, "A": (self.a + dx) ** 2}


ALL = {"both": both, "other": other, "Box": Box}
