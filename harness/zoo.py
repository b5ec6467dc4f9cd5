"""Recipes for every public estimator, with non-default settings (used by C21 and C25)."""

import numpy as np


def opt_zoo(cols, g):
    """name -> factory of an optimizer for the named assets ``cols``."""
    from skfolio import RiskMeasure
    from skfolio import optimization as so
    from skfolio import prior as pr
    from skfolio import uncertainty_set as us
    from skfolio.cluster import HierarchicalClustering
    from skfolio.moments import LedoitWolf, ShrunkMu

    k = len(cols)
    up = np.round(g.uniform(0.6, 1.0, k), 3)
    tc = {c: float(round(v, 4)) for c, v in zip(cols, g.uniform(0, 0.003, k), strict=True)}
    pw = np.round(g.dirichlet(np.ones(k)), 3)
    groups = {c: [["x", "y"][i % 2]] for i, c in enumerate(cols)}
    risks = [RiskMeasure.VARIANCE, RiskMeasure.CVAR, RiskMeasure.CDAR, RiskMeasure.SEMI_DEVIATION, RiskMeasure.MAX_DRAWDOWN, RiskMeasure.ULCER_INDEX, RiskMeasure.EVAR]
    rm = risks[int(g.integers(len(risks)))]
    return {
        "MeanRisk": lambda: so.MeanRisk(risk_measure=rm, max_weights=up, transaction_costs=tc, previous_weights=pw, groups=groups, linear_constraints=["x <= 0.8", f"{cols[0]} >= 0.01"], l2_coef=0.001),
        "MeanRiskDict": lambda: so.MeanRisk(risk_measure=rm, min_weights={cols[0]: 0.05}, management_fees=tc, left_inequality=np.eye(k)[:1], right_inequality=np.array([0.9]), portfolio_params={"name": "n", "risk_free_rate": 0.0001}),
        "MeanRiskSweep": lambda: so.MeanRisk(risk_measure=RiskMeasure.VARIANCE, max_cvar=[0.2, 0.3], prior_estimator=pr.EmpiricalPrior(mu_estimator=ShrunkMu(), covariance_estimator=LedoitWolf())),
        "MeanRiskRobust": lambda: so.MeanRisk(objective_function=so.ObjectiveFunction.MAXIMIZE_UTILITY, mu_uncertainty_set_estimator=us.BootstrapMuUncertaintySet(n_bootstrap_samples=20, seed=3, block_size=3.0), risk_aversion=4.0),
        "RiskBudgeting": lambda: so.RiskBudgeting(risk_measure=RiskMeasure.CVAR if rm == RiskMeasure.MAX_DRAWDOWN else rm, risk_budget=np.where(np.arange(k) == 0, 0.0, 1.0)),
        "RiskBudgetingDict": lambda: so.RiskBudgeting(risk_budget={cols[-1]: 2.0, cols[0]: 1.0}),
        "MaximumDiversification": lambda: so.MaximumDiversification(max_weights=up),
        "DistributionallyRobustCVaR": lambda: so.DistributionallyRobustCVaR(wasserstein_ball_radius=0.01, max_weights=list(up)),
        "HRP": lambda: so.HierarchicalRiskParity(risk_measure=RiskMeasure.CVAR, max_weights=dict(zip(cols, up.tolist(), strict=True)), hierarchical_clustering_estimator=HierarchicalClustering(max_clusters=2)),
        "HERC": lambda: so.HierarchicalEqualRiskContribution(max_weights=up),
        "NCO": lambda: so.NestedClustersOptimization(inner_estimator=so.InverseVolatility(), outer_estimator=so.MeanRisk(), cv=3),
        "Stacking": lambda: so.StackingOptimization(estimators=[("a", so.EqualWeighted()), ("b", so.InverseVolatility()), ("c", so.MeanRisk(max_weights=up))], final_estimator=so.MeanRisk()),
        "EqualWeighted": lambda: so.EqualWeighted(portfolio_params={"tag": "t"}),
        "InverseVolatility": lambda: so.InverseVolatility(),
        "BlackLitterman": lambda: so.MeanRisk(prior_estimator=pr.BlackLitterman(views=[f"{cols[0]} == 0.001", "x - y == 0.0002"], groups=groups)),
    }  # fmt: skip


def other_zoo(cols, g):
    import skfolio.distribution as sd
    import skfolio.moments as mo
    from skfolio import cluster, distance, pre_selection, prior
    from skfolio import uncertainty_set as us

    k = len(cols)
    market = np.round(g.dirichlet(np.ones(k)), 3)
    return {
        "EmpiricalMu": lambda: mo.EmpiricalMu(window_size=20),
        "EWMu": lambda: mo.EWMu(alpha=0.3),
        "ShrunkMu": lambda: mo.ShrunkMu(covariance_estimator=mo.EWCovariance(), vol_weighted_target=True),
        "EquilibriumMu": lambda: mo.EquilibriumMu(weights=market, risk_aversion=2),
        "EmpiricalCovariance": lambda: mo.EmpiricalCovariance(window_size=25, ddof=0),
        "EWCovariance": lambda: mo.EWCovariance(alpha=0.1, window_size=25),
        "GerberCovariance": lambda: mo.GerberCovariance(threshold=0.4, psd_variant=bool(g.integers(2))),
        "DenoiseCovariance": lambda: mo.DenoiseCovariance(covariance_estimator=mo.EmpiricalCovariance()),
        "DetoneCovariance": lambda: mo.DetoneCovariance(n_markets=1),
        "LedoitWolf": lambda: mo.LedoitWolf(),
        "OAS": lambda: mo.OAS(),
        "GraphicalLassoCV": lambda: mo.GraphicalLassoCV(alphas=[0.01, 0.1], cv=2),
        "ImpliedCovariance": lambda: mo.ImpliedCovariance(prior_covariance_estimator=mo.LedoitWolf(), window_size=4),
        "LoadingMatrixRegression": lambda: prior.LoadingMatrixRegression(),
        "ShrunkCovariance": lambda: mo.ShrunkCovariance(shrinkage=0.3),
        "PearsonDistance": lambda: distance.PearsonDistance(absolute=True, power=2),
        "KendallDistance": lambda: distance.KendallDistance(),
        "SpearmanDistance": lambda: distance.SpearmanDistance(power=0.5),
        "CovarianceDistance": lambda: distance.CovarianceDistance(covariance_estimator=mo.LedoitWolf()),
        "DistanceCorrelation": lambda: distance.DistanceCorrelation(threshold=0.5),
        "MutualInformation": lambda: distance.MutualInformation(n_bins_method=distance.NBinsMethod.FREEDMAN, normalize=False),
        "EmpiricalPrior": lambda: prior.EmpiricalPrior(mu_estimator=mo.EWMu(), covariance_estimator=mo.DenoiseCovariance(), is_log_normal=True, investment_horizon=20),
        "BlackLitterman": lambda: prior.BlackLitterman(views=np.array([f"{cols[0]} == 0.001", f"{cols[1]} - {cols[0]} == 0.0003"]), view_confidences=np.array([0.4, 0.7])),
        "FactorModel": lambda: prior.FactorModel(factor_prior_estimator=prior.EmpiricalPrior(covariance_estimator=mo.LedoitWolf())),
        "SyntheticData": lambda: prior.SyntheticData(distribution_estimator=sd.VineCopula(marginal_candidates=[sd.Gaussian()], copula_candidates=[sd.GaussianCopula()], max_depth=2, random_state=5), n_samples=50, sample_args={"conditioning": {cols[0]: -0.01}}),
        "EmpiricalMuSet": lambda: us.EmpiricalMuUncertaintySet(confidence_level=0.8, diagonal=False),
        "EmpiricalCovSet": lambda: us.EmpiricalCovarianceUncertaintySet(prior_estimator=prior.EmpiricalPrior(covariance_estimator=mo.OAS())),
        "BootstrapMuSet": lambda: us.BootstrapMuUncertaintySet(n_bootstrap_samples=20, seed=7),
        "BootstrapCovSet": lambda: us.BootstrapCovarianceUncertaintySet(n_bootstrap_samples=20, seed=7, block_size=4.0),
        "DropCorrelated": lambda: pre_selection.DropCorrelated(threshold=0.3),
        "SelectKExtremes": lambda: pre_selection.SelectKExtremes(k=2, highest=False),
        "SelectNonDominated": lambda: pre_selection.SelectNonDominated(min_n_assets=2),
        "DropZeroVariance": lambda: pre_selection.DropZeroVariance(),
        "SelectComplete": lambda: pre_selection.SelectComplete(),
        "HierarchicalClustering": lambda: cluster.HierarchicalClustering(max_clusters=3, linkage_method=cluster.LinkageMethod.AVERAGE),
        "VineCopula": lambda: sd.VineCopula(marginal_candidates=[sd.Gaussian(), sd.StudentT()], copula_candidates=[sd.GaussianCopula(), sd.ClaytonCopula()], max_depth=3, log_transform={cols[0]: True}, central_assets=[cols[-1]], random_state=3),
        "Gaussian": lambda: sd.Gaussian(loc=0.0),
        "StudentT": lambda: sd.StudentT(),
        "JohnsonSU": lambda: sd.JohnsonSU(),
        "GaussianCopula": lambda: sd.GaussianCopula(itau=bool(g.integers(2))),
        "StudentTCopula": lambda: sd.StudentTCopula(),
        "ClaytonCopula": lambda: sd.ClaytonCopula(itau=bool(g.integers(2))),
        "GumbelCopula": lambda: sd.GumbelCopula(itau=bool(g.integers(2))),
        "JoeCopula": lambda: sd.JoeCopula(itau=bool(g.integers(2))),
    }  # fmt: skip


OPT = ["MeanRisk", "MeanRiskDict", "MeanRiskSweep", "MeanRiskRobust", "RiskBudgeting", "RiskBudgetingDict", "MaximumDiversification",
       "DistributionallyRobustCVaR", "HRP", "HERC", "NCO", "Stacking", "EqualWeighted", "InverseVolatility", "BlackLitterman"]  # fmt: skip
OTHER = [
    "EmpiricalMu", "EWMu", "ShrunkMu", "EquilibriumMu", "EmpiricalCovariance", "EWCovariance", "GerberCovariance", "DenoiseCovariance",
    "DetoneCovariance", "LedoitWolf", "OAS", "GraphicalLassoCV", "ImpliedCovariance", "LoadingMatrixRegression", "ShrunkCovariance", "PearsonDistance", "KendallDistance", "SpearmanDistance", "CovarianceDistance",
    "DistanceCorrelation", "MutualInformation", "EmpiricalPrior", "BlackLitterman", "FactorModel", "SyntheticData", "EmpiricalMuSet",
    "EmpiricalCovSet", "BootstrapMuSet", "BootstrapCovSet", "DropCorrelated", "SelectKExtremes", "SelectNonDominated", "DropZeroVariance",
    "SelectComplete", "HierarchicalClustering", "VineCopula", "Gaussian", "StudentT", "JohnsonSU", "GaussianCopula", "StudentTCopula", "ClaytonCopula",
    "GumbelCopula", "JoeCopula",
]  # fmt: skip
