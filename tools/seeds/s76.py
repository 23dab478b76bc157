ID='vierendeel-end-point-loads'
PROPERTY='P22'
NEEDS='Vierendeel truss with point loads on the bottom chord'
BREAKS='last inner node of the bottom chord gets no load'
EDITS=[('metku/raami/raami_vierendeel.py','''            for node in self.bottom_nodes[1:-1]:                
                self.add(PointLoad(node, [0.0,p[1],0.0], load_id, ltype, load_name + '_2', 1.0))
    
    def symmetry(self,axis='y',sym_value=None):
        
        # Make general actions for symmetry
        super().symmetry(axis,sym_value)
        
        # Symmetry of joints
        #joint_list = list(self.joints.values())
        for joint in self.joints.values():
            #print(f"Symmetry for joint {joint.joint_id}.")
            sym_node = joint.symmetry_joint(self.joints)
            #print(sym_node)
    
    def clear_fem(self):
        """ Clears FEM data """
        super().clear_fem()
        
        for joint in self.joints.values():
            joint.clear_fem()
            
    def generate_fem(self,model="no_eccentricity",nodes_and_elements_only=False):
        """
        Creates FEM model

        Parameters
        ----------
        model : string, optional
            Type of FEM model. Allowed values are:
                "simple"''','''            for node in self.bottom_nodes[1:self._npanels-1]:                
                self.add(PointLoad(node, [0.0,p[1],0.0], load_id, ltype, load_name + '_2', 1.0))
    
    def symmetry(self,axis='y',sym_value=None):
        
        # Make general actions for symmetry
        super().symmetry(axis,sym_value)
        
        # Symmetry of joints
        #joint_list = list(self.joints.values())
        for joint in self.joints.values():
            #print(f"Symmetry for joint {joint.joint_id}.")
            sym_node = joint.symmetry_joint(self.joints)
            #print(sym_node)
    
    def clear_fem(self):
        """ Clears FEM data """
        super().clear_fem()
        
        for joint in self.joints.values():
            joint.clear_fem()
            
    def generate_fem(self,model="no_eccentricity",nodes_and_elements_only=False):
        """
        Creates FEM model

        Parameters
        ----------
        model : string, optional
            Type of FEM model. Allowed values are:
                "simple"''')]
DEMO='''
from metku.raami.raami_vierendeel import VierendeelTruss
t = VierendeelTruss(span=12000, height=1500, panels=4)
t.generate_topology()
t.generate_supports()
t.generate_chord_point_load([0.0, -1e4], chord="bottom", load_id=2)
n = sum(1 for l in t.loads.values())
print(n)
raise SystemExit(0 if n == 3 else 1)
'''
