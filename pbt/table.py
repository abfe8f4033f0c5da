"""Published oscillator parameters of the predefined materials, written down independently of the code.
   name -> (oscillators (w_plasma, w_resonance, gamma) in rad/s, permeability (mu(0), w_M) or (), Smith-Drude factor)"""
WATER = [(4.16e13, 3.48e13, 0), (4.16e12, 1.33e12, 0), (1.10e13, 7.49e12, 0), (1.14e14, 1.56e14, 0),
         (9.00e15, 1.44e16, 0), (1.63e16, 3.18e16, 0), (1.48e16, 4.01e16, 0)]
TABLE = {
    "Gold": ([(1.37e16, 0, 5.77e13)], ()),
    "Gold_Bimonte": ([(1.37e16, 0, 5.32e13)], ()),
    "Gold_plasma": ([(1.37e16, 0, 0)], ()),
    "Gold_plasma_wp1": ([(1.37e16, 0, 0)], ()),
    "Gold_plasma_wp01": ([(1.37e15, 0, 0)], ()),
    "Gold_plasma_wp10": ([(1.37e17, 0, 0)], ()),
    "Gold_magnetic": ([(1.37e16, 0, 5.77e13)], (4, 1e9)),
    "Silver": ([(1.46e16, 0, 3.46e13)], ()),
    "Silver_plasma": ([(1.46e16, 0, 0)], ()),
    "SiC": ([(7e14, 0, 1.5e14)], ()),
    "SiC_plasma": ([(7e14, 0, 0)], ()),
    "Mercury": ([(5.4e15, 0, 2.5e14)], ()),
    "Mercury_plasma": ([(5.4e15, 0, 0)], ()),
    "MercurySmith": ([(1.98e16, 0, 1.647e15)], ()),
    "MercurySmith_plasma": ([(1.98e16, 0, 0)], ()),
    "Water": (WATER, ()),
    "modifiedWater": ([(8e11, 1e11, 0)]+WATER, ()),
    "Ethanol": ([(23.84**0.5*6.6e14, 6.6e14, 0.1e13), (0.852**0.5*1.14e16, 1.14e16, 0.1e13)], ()),
    "AlternEth": ([(2.41e12, 2.46e12, 0), (8.35e12, 6.56e12, 0), (6.37e13, 1.70e14, 0), (3.70e15, 1.04e16, 0),
                   (1.49e16, 2.31e16, 0), (1.17e16, 2.37e16, 0), (1.77e16, 6.65e16, 0)], ()),
    "Altern1Ps": ([(1.67e11, 1.52e12, 0), (2.97e12, 2.01e13, 0), (7.89e14, 5.89e15, 0), (3.48e13, 1.99e14, 0),
                   (5.01e15, 9.10e15, 0), (1.22e16, 1.55e16, 0), (1.63e16, 2.86e16, 0), (1.42e16, 7.82e16, 0)], ()),
    "Altern2Ps": ([(3.17e13, 1.79e14, 0), (1.48e11, 1.37e12, 0), (2.66e12, 1.81e13, 0), (2.27e14, 2.37e15, 0),
                   (5.03e15, 9.30e15, 0), (1.24e16, 1.53e16, 0), (1.98e16, 3.07e16, 0), (1.52e16, 1.04e17, 0)], ()),
    "Polystyrene": ([(0.2*5.54e14, 5.54e14, 0), (1.56*1.35e16, 1.35e16, 0)], ()),
    "Bromobenzene": ([(1.78e12, 7.63e12, 0), (6.37e12, 4.69e13, 0), (3.68e13, 1.69e14, 0), (7.48e15, 1.03e16, 0),
                      (1.62e16, 2.02e16, 0), (1.79e16, 3.65e16, 0), (1.46e16, 1.52e17, 0)], ()),
    "Ptfe": ([(4.40e10, 4.56e11, 0), (1.56e12, 1.15e13, 0), (3.15e13, 8.46e13, 0), (6.41e13, 1.91e14, 0),
              (4.50e15, 1.02e16, 0), (1.87e16, 2.83e16, 0), (2.08e16, 6.40e16, 0), (2.32e16, 1.18e17, 0)], ()),
    "Silicon": ([(5.53e13, 6.24e13, 0), (7.67e13, 1.70e14, 0), (1.10e14, 1.70e14, 0), (1.06e14, 1.69e14, 0),
                 (4.93e15, 2.20e16, 0), (2.34e16, 2.58e16, 0), (5.76e15, 1.24e16, 0), (3.26e16, 1.39e17, 0)], ()),
    "Artificial": ([(1e18, 0, 0)], ()),
    "Vacuum": ([], ()),
}
