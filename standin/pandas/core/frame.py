from pandas import DataFrame
