// Interface stub of ChemicalFun's formula parser (the package itself is not
// available here).  Only the declarations thermofun uses, with the behaviour
// the analysis needs to type-check Database.cpp and Element.cpp.  Nothing in
// this file is analysed.
#pragma once
#include <map>
#include <set>
#include <string>
#include <vector>
namespace ChemicalFun {
class ElementKey {
    std::string symbol; int class_ = 0; int isotope = 0;
public:
    explicit ElementKey(const std::string& s, int c = 0, int i = 0);
    const std::string& Symbol() const;
    int Class() const;
    int Isotope() const;
    bool operator<(const ElementKey&) const;
};
struct ElementValues {
    std::string recid;
    double atomic_mass, entropy, heat_capacity, volume;
    int valence, number;
    std::string name;
};
using ElementsData = std::map<ElementKey, ElementValues>;
struct FormulaProperties { std::string formula; double charge, atomic_mass, elemental_entropy, atoms_formula_unit; };
class DBElements {
    ElementsData dbelements;
public:
    const ElementsData& elements() const;
    void addElement(const ElementKey&, const ElementValues&);
    FormulaProperties formulasProperties(const std::string&) const;
    static int defaultValence(const std::string&);
};
class FormulaToken {
public:
    explicit FormulaToken(const std::string&);
    const std::map<ElementKey, double>& getStoichCoefficients() const;
    FormulaProperties properties(const ElementsData&) const;
};
}
