"""The documented default value and unit of every run parameter."""
PARAMETERS = {
    'minimum_energy': (0.0, 'MeV'),
    'Emin': (0.0, 'MeV'),
    'minimum energy': (0.0, 'MeV'),
    'reference energy': (1.0, 'MeV'),
    'energy0': (1.0, 'MeV'),
    'reference radius': (1.0, 'au'),
    'r0': (1.0, 'au'),
    'FailModeDump': (1, None),
    'aziSunStart': (0.0, None),
    'boundaryFunctAmplitude': (1.0, 'nuc MeV^-1 s^-1 sr^-1 cm^-2'),
    'J0': (1.0, 'nuc MeV^-1 s^-1 sr^-1 cm^-2'),
    'boundaryFunctBeta': (1.7, '1'),
    'beta': (1.7, '1'),
    'boundaryFunctEcutoff': (1.0, 'MeV'),
    'E0': (1.0, 'MeV'),
    'boundaryFunctGamma': (2.0, '1'),
    'gamma': (2.0, '1'),
    'boundaryFunctXi': (1.0, '1'),
    'xi': (1.0, '1'),
    'boundaryFunctionInitDomain': (1, None),
    'charge': (1.0, 'e'),
    'q': (1.0, 'e'),
    'checkSeedPopulation': (1, None),
    'clusterNodes': (0, None),
    'dsh_hel_min': (0.00025, None),
    'dsh_min': (5e-05, None),
    'dumpFreq': (1, None),
    'dumpOnAbort': (0, None),
    'eMax': (1000.0, 'MeV nuc^-1'),
    'eMin': (1.0, 'MeV nuc^-1'),
    'epCalcStartTime': (0.0, None),
    'epEquilibriumCalcDuration': (0.0, 'day'),
    'epremDomain': (0, None),
    'epremDomainOutputTime': (0.0, None),
    'fieldAligned': (0, None),
    'flowMag': (40000000.0, 'cm s^-1'),
    'fluxLimiter': (1, None),
    'focusingLimit': (1.0, None),
    'gammaEhigh': (0.0, '1'),
    'gammaElow': (0.0, '1'),
    'idealShock': (0, None),
    'idealShockInitTime': (0.0, 'day'),
    'idealShockJump': (4.0, '1'),
    'idealShockPhi': (0.0, 'rad'),
    'idealShockScaleLength': (0.0046491, 'au'),
    'idealShockSharpness': (1.0, '1'),
    'idealShockSpeed': (150000000.0, 'cm s^-1'),
    'idealShockTheta': (1.570796, 'rad'),
    'idealShockWidth': (0.0, 'rad'),
    'idw_p': (3.0, '1'),
    'kperxkpar': (0.01, '1'),
    'kper_kpar': (0.01, '1'),
    'kper/kpar': (0.01, '1'),
    'kper / kpar': (0.01, '1'),
    'lamo': (1.0, 'au'),
    'lam0': (1.0, 'au'),
    'lambda0': (1.0, 'au'),
    'masCorRotateFake': (0, None),
    'masCouple': (0, None),
    'masCoupledTime': (1, None),
    'masDigits': (3, None),
    'masDirectory': ('', None),
    'masHelCouple': (0, None),
    'masHelDigits': (3, None),
    'masHelDirectory': ('', None),
    'masHelNumFiles': (0, None),
    'masHelRadialMax': (0.0, None),
    'masHelRadialMin': (0.0, None),
    'masInitFromOuterBoundary': (2, None),
    'masInitMonteCarlo': (0, None),
    'masInitRadius': (0.0, None),
    'masInitTimeStep': (1.1574074074e-05, 'day'),
    'masNumFiles': (0, None),
    'masRadialMax': (0.0, None),
    'masRadialMin': (0.0, None),
    'masRotateSolution': (1, None),
    'masStartTime': (0.0, 'day'),
    'masSteadyState': (1, None),
    'masTriLinear': (1, None),
    'masVmin': (5000000.0, None),
    'mass': (1.0, 'nucleon'),
    'm': (1.0, 'nucleon'),
    'mfpRadialPower': (2.0, '1'),
    'mfp_radial_power': (2.0, '1'),
    'mhdBAu': (1.6e-05, 'G'),
    'mhdDensityAu': (8.3, 'cm^-3'),
    'minInjectionEnergy': (0.01, 'MeV'),
    'nodeClusterPhi': (0.0, None),
    'nodeClusterTheta': (1.570796, None),
    'nodeClusterWidth': (0.0, None),
    'numColumnsPerFace': (2, None),
    'numEnergySteps': (20, None),
    'numEpSteps': (30, None),
    'numMuSteps': (20, None),
    'numNodesPerStream': (None, None),
    'numObservers': (0, '1'),
    'numRowsPerFace': (2, None),
    'numSpecies': (1, None),
    'obsPhi': (0, 'rad'),
    'obsR': (0, 'au'),
    'obsTheta': (0, 'rad'),
    'omegaSun': (0.0014301948170701616, 'cm rad au^-1 s^-1'),
    'outputFloat': (0, None),
    'outputRestart': (0, None),
    'parallelFlow': (0.0, None),
    'pointObserverOutput': (0, None),
    'pointObserverOutputTime': (0.0, None),
    'preEruptionDuration': (0.0, 'day'),
    'rScale': (0.005, 'au'),
    'rigidityPower': (0.3333333333333333, '1'),
    'rigidity_power': (0.3333333333333333, '1'),
    'saveRestartFile': (0, None),
    'seedFunctionTest': (0, None),
    'shockDetectPercent': (1.0, '1'),
    'shockInjectionFactor': (1.0, '1'),
    'shockSolver': (0, None),
    'simStartTime': (0.0, 'day'),
    'simStopTime': (0.01041666666667, 'day'),
    'streamFluxOutput': (0, None),
    'streamFluxOutputTime': (0.0, None),
    'subTimeCouple': (0, None),
    'tDel': (0.01041666666667, 'day'),
    'unifiedOutput': (1, None),
    'unifiedOutputTime': (0.0, None),
    'unstructuredDomain': (0, None),
    'unstructuredDomainOutputTime': (0.0, None),
    'useAdiabaticChange': (1, None),
    'useAdiabaticFocus': (1, None),
    'useBoundaryFunction': (1, None),
    'useDrift': (0, None),
    'useEPBoundary': (1, None),
    'useMasSteadyStateDt': (1, None),
    'useParallelDiffusion': (1, None),
    'useShellDiffusion': (0, None),
    'useStochastic': (0, None),
    'warningsFile': ('warningsXXX.txt', None),
}
